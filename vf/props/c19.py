"""Text logs and spectra (spec: TextLogs*.tla)."""
import os
import shutil

import numpy as np

from ..pmap import observe, pmap
from .c10 import judge

LEVEL = "model_checking"
NAN = -77777
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]


def milli(v, k=1000):
    v = float(v)
    if v != v:
        return NAN
    n = round(v * k)
    return n if abs(v * k - n) < 1e-3 and abs(n) < 2**31 else -77778


def typed(v):
    if isinstance(v, bool) or v is None:
        return f"?:{v}"
    if isinstance(v, (int, float, np.number)):
        return f"n:{milli(v)}"
    return f"s:{v}"


def leaves(d, p=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, f"{p}{k}.")
        else:
            yield {"k": p + k, "v": typed(v)}


def num(r, n, style=None):
    """A text for the number n/1000."""
    neg, a = n < 0, abs(n)
    t = f"{a // 1000}.{a % 1000:03d}"
    style = style or r.choice(["plain", "short", "sci", "SCI"])
    if style == "short":
        t = t.rstrip("0")
        if t.endswith(".") and r.random() < 0.5:
            t = t[:-1]
    elif style != "plain":
        t = f"{a}{'e' if style == 'sci' else 'E'}-{r.choice(['3', '03'])}"
    return ("-" if neg else "") + t


# ------------------------------------------------------------------ EMSA
WORDS = ["NIO EELS OK SHELL", "a", "Fe: K edge", "x" * 64, "µ-sample", "# 5", "12", "e", "1 - 2", "a=b, c"]
NUMKEYS = ["EMISSION", "PROBECUR", "BEAMDIAM", "CONVANGLE", "COLLANGLE", "THICKNESS", "XTILTSTGE", "YTILTSTGE", "INTEGTIME", "DWELLTIME",
           "ELEVANGLE", "AZIMANGLE", "SOLIDANGLE", "LIVETIME", "REALTIME", "FWHMMNKA", "CHOFFSET", "MAGCAM", "XPOSITION", "TBEWIND"]
UNIT = {"BEAMKV": "kV", "EMISSION": "uA", "PROBECUR": "nA", "CONVANGLE": "mR", "COLLANGLE": "mR", "THICKNESS": "nm", "XTILTSTGE": "dg", "LIVETIME": "s", "INTEGTIME": "ms"}


def kw(r, key, text=None, n=None, unit=""):
    raw = f"{key:<8}-{unit}" if unit and len(key) <= 8 else f"{key}-{unit}" if unit else key
    if n is not None:
        text = num(r, n)
        k = r.random()
        if k < 0.06 and "e" not in text.lower():
            text += " 7"  # two values
        elif k < 0.12 and "e" in text:
            text = text.replace("e", " e")
    return {"k": "kw", "raw": raw, "key": key, "unit": unit, "text": text, "isnum": n is not None, "num": n if n is not None else 0}


def gen_msa(r):
    e = {"fmt": "msa", "date": {"ok": False}, "time": {"ok": False}}
    L = []
    xy = r.random() < 0.5
    cols = r.choice([1, 1, 2] if xy else [1, 1, 3, 5])
    L.append(kw(r, "FORMAT", r.choice(["EMSA/MAS Spectral Data File", "EMSA/MAS spectral data file"])))
    L.append(kw(r, "VERSION", "1.0"))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        L.append(kw(r, "TITLE", r.choice(WORDS)))
    k = r.random()
    if k < 0.6:
        e["date"] = {"ok": True, "d": r.randrange(1, 29), "mon": r.choice(MONTHS), "y": r.randrange(1985, 2030)}
        mon = e["date"]["mon"]
        t = f"{e['date']['d']:02d}-{r.choice([mon, mon.capitalize(), mon.lower()])}-{e['date']['y']}"
        L.append(kw(r, "DATE", t))
    elif k < 0.8:
        L.append(kw(r, "DATE", r.choice(["", "2020-01-02", "31-FEB-1999", "12-XXX-2000", "today"])))
    k = r.random()
    if k < 0.6:
        s = r.random() < 0.5
        e["time"] = {"ok": True, "h": r.randrange(24), "m": r.randrange(60), "s": r.randrange(60) if s else 0}
        T = e["time"]
        L.append(kw(r, "TIME", f"{T['h']:02d}:{T['m']:02d}" + (f":{T['s']:02d}" if s else "")))
    elif k < 0.75:
        L.append(kw(r, "TIME", r.choice(["", "25:00", "12:00:61.5"])))
    L.append(kw(r, "OWNER", r.choice(["EMSA/MAS TASK FORCE", ""])))
    rows = r.randrange(0, 7) if r.random() < 0.9 else 0
    L.append(kw(r, "NPOINTS", n=1000 * rows * (cols if not xy else cols)))
    L.append(kw(r, "NCOLUMNS", n=1000 * cols))
    L.append(kw(r, "DATATYPE", "XY" if xy else "Y"))
    if r.random() < 0.9:
        L.append(kw(r, "XPERCHAN", n=r.choice([3100, 10000, 50, -20, 1000])))
    if r.random() < 0.9:
        L.append(kw(r, "OFFSET", n=r.choice([520130, 0, -200, -1000])))
    for key, v in [("XLABEL", "Energy"), ("XUNITS", "eV"), ("YLABEL", "Counts"), ("YUNITS", "Intensity")]:
        if r.random() < 0.6:
            L.append(kw(r, key, r.choice([v, v, ""]) if key in ("XLABEL", "XUNITS") else v))
    if r.random() < 0.8:
        L.append(kw(r, "SIGNALTYPE", r.choice(["ELS", "EDS", "EDS", "CLS", "WDS", "GAM", "XRF", ""])))
    if r.random() < 0.7:
        L.append(kw(r, "BEAMKV", n=r.choice([120000, 30000, 30001, 5000, 200000, 15500]), unit=r.choice(["", "kV", "kV"])))
    for key in r.sample(NUMKEYS, r.randrange(0, 6)):
        L.append(kw(r, key, n=r.choice([0, 1, 5500, -1250, 90000, 1234567]), unit=UNIT.get(key, "") if r.random() < 0.6 else ""))
    for key, v in [("OPERMODE", "IMAG"), ("ELSDET", "SERIAL"), ("EDSDET", "SIWLS"), ("WHATEVER", "x: y"), ("SPECIMEN", "ab")]:
        if r.random() < 0.25:
            L.append(kw(r, key, v))
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        L.append(kw(r, "COMMENT", r.choice(WORDS)))
    head, tail = L[:2], L[2:]
    # parameters that come several times stay in order
    if r.random() < 0.3:
        r.shuffle(tail)
    if r.random() < 0.15:
        tail.append(dict(r.choice([x for x in tail if x["key"] not in ("DATE", "TIME", "DATATYPE", "BEAMKV")])))
    L = head + tail
    if r.random() < 0.2:
        L.insert(r.randrange(1, len(L)), {"k": "blank"})
    L.append({"k": "start"})
    for i in range(rows):
        c = cols if i < rows - 1 or xy else r.randrange(1, cols + 1)
        v = []
        for _ in range(c):
            if xy:
                v.append(r.randrange(-5, 10**6))
            v.append(r.choice([r.randrange(-10, 50), r.randrange(10**6), 1000 * r.randrange(100), 2 * 10**9]))
        L.append({"k": "data", "v": v})
        if r.random() < 0.05:
            L.append({"k": "blank"})
    if r.random() < 0.9:
        L.append({"k": "end"})
    if r.random() < 0.3:
        L.append({"k": "blank"})
    e["lines"] = L
    e["fname"] = r.choice(["a.msa", "b c.msa", "é.msa", ""])
    e["enc"] = r.choice(["latin-1", "latin-1", "utf8"])
    e["eol"] = r.choice(["\r\n", "\n"])
    e["sep"] = r.choice([", ", ",", "  ", " "])
    e["last"] = r.random() < 0.7  # ends with an end of line
    e["style"] = r.choice(["", "plain", "sci"])
    e["pad"] = r.choice(["", " ", "   "])
    out = []
    for x in L:
        if x["k"] == "kw":
            out.append(f"#{x['raw']:<12}: {x['text']}{e['pad']}")
        elif x["k"] == "start":
            out.append("#SPECTRUM    : Spectral Data Starts Here")
        elif x["k"] == "end":
            out.append("#ENDOFDATA   : ")
        elif x["k"] == "blank":
            out.append("")
        else:
            out.append(e["sep"].join(num(r, n, e["style"] or None) for n in x["v"]) + (e["sep"].rstrip() if r.random() < 0.2 else ""))
    e["body"] = e["eol"].join(out) + (e["eol"] if e["last"] else "")
    return e


def run_msa(e, d):
    from rsciio import msa

    if not e["fname"]:
        L = msa.parse_msa_string(e["body"])
    else:
        fn = os.path.join(d, e["fname"])
        with open(fn, "w", encoding=e["enc"], newline="") as f:
            f.write(e["body"])
        L = msa.file_reader(fn, **({} if e["enc"] == "latin-1" else {"encoding": e["enc"]}))
    assert len(L) == 1
    D = L[0]
    (a,) = D["axes"]
    assert a["index_in_array"] == 0 and D["data"].ndim == 1
    assert len(D["data"]) == 0 or D["data"].dtype == "f8"
    return {
        "data": [milli(x) for x in D["data"]],
        "axis": {"size": a["size"], "name": a["name"], "units": a["units"], "scale": milli(a["scale"]), "offset": milli(a["offset"]), "nav": a["navigate"]},
        "pars": [{"k": k, "v": typed(v)} for k, v in D["original_metadata"].items()],
        "md": list(leaves(D["metadata"])),
    }


# ------------------------------------------------------------------ DigiHeater
def gen_dens(r):
    unit = r.choice([10, 10, 1000])
    day = 86400000 // unit
    n = r.randrange(2, 9)
    step = r.choice([33, 33, 100, 7])
    t = r.choice([r.randrange(day), day - r.randrange(1, 4 * step)])
    rows = []
    for i in range(n):
        rows.append({"t": t % day, "v": r.randrange(-5000, 10**6)})
        t += step + (r.randrange(-3, 4) if r.random() < 0.5 else 0)
    y, mo, dd, h, mi = r.randrange(0, 40), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60)
    pars = [r.randrange(1, 10**6) for _ in range(4)]
    e = {"fmt": "dens", "unit": unit, "day": day, "rows": rows, "prec": 20, "prec2": 5, "fname": r.choice(["a.dens", "log b.dens"]),
         "bad": "" if r.random() < 0.85 else r.choice(["version", "columns", "date", "calib", "rows", "first", "empty"])}
    e["md"] = {"date": f"{2000 + y}-{mo:02d}-{dd:02d}", "time": f"{h:02d}:{mi:02d}:00", "file": e["fname"], "type": "", "quantity": "Temperature (Celsius)"}
    e["head"] = {"pars": pars, "when": f"{2000 + y}-{mo:02d}-{dd:02d} {h:02d}:{mi:02d}:00"}
    if e["bad"]:
        e["md"] = e["head"] = 0
    out = [""] * r.choice([0, 0, 1, 3])
    out.append(f"{dd:02d}/{mo:02d}/'{y:02d} {h:02d}:{mi:02d}" + ("" if e["bad"] == "first" else "\t") + f"Digiheater {'3.2' if e['bad'] == 'version' else '3.1'}")
    if e["bad"] == "date":
        out[-1] = out[-1].replace("/", "-", 1)
    out.append("\t".join(f"{k} = {num(r, p, 'plain')}" for k, p in zip(["R0", "a", "b", "c"][: 3 if e["bad"] == "calib" else 4], pars)))
    out.append("Tsample = 330 [ms]  ")
    out.append("sample\ttime\t" + ("Tmeas[C]\tTset[C]" if e["bad"] == "columns" else "Tset[C]\tTmeas[C]") + "\tRheat[ohm]\tVheat[V]\tIheat[mA]\tPheat [mW]\tc")
    clock = unit == 10 or r.random() < 0.5
    for i, x in enumerate(rows):
        ms = x["t"] * unit
        s, ms = divmod(ms, 1000)
        tm = f"{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}.{ms // 10:02d}" if clock else str(s) if r.random() < 0.5 else f"{s}.0"
        out.append(f"{i + 1}\t{tm}\t23.0\t{'x' if e['bad'] == 'rows' else num(r, x['v'])}\t281.617\t0.075535\t0.267806\t0.020229\t278.222\tnorm")
    if r.random() < 0.5:
        out.append("")
    e["body"] = "\n".join(out) + r.choice(["", "\n"]) if e["bad"] != "empty" else r.choice(["", "\n", " \n\n"])
    return e


def run_dens(e, d):
    from rsciio.dens import file_reader

    fn = os.path.join(d, e["fname"])
    with open(fn, "w") as f:
        f.write(e["body"])
    (D,) = file_reader(fn)
    (a,) = D["axes"]
    assert a["index_in_array"] == 0 and a["name"] == "Time" and a["units"] == "s" and a["navigate"] is False
    g, h = D["metadata"]["General"], D["original_metadata"]["DENS_header"]
    u = 1000 / e["unit"]
    return {
        "data": [milli(x) for x in D["data"]], "size": a["size"],
        "scale": round(a["scale"] * u * e["prec"]), "rel": round((a["offset"] * u - e["rows"][0]["t"]) * e["prec2"]),
        "md": {"date": g["date"], "time": g["time"], "file": g["original_filename"], "type": D["metadata"]["Signal"]["signal_type"], "quantity": D["metadata"]["Signal"]["quantity"]},
        "head": {"pars": [milli(h[k]) for k in ("R0", "a", "b", "c")], "when": str(h["date"])},
    }


# ------------------------------------------------------------------ Protochips
PROTO = {"Temperature": "Degrees C", "Current": "Amps", "Voltage": "Volts", "Resistance": "Ohms", "Pressure": "Torr"}
NOTES = ["Chip type = E-GAS-RTD", "start", "sample #2", "12", "Experiment type = Vacuum", "µ", "7.5", "100%", "# look", "True"]


def gen_proto(r):
    cols = []
    pre = ["Channel A ", "Channel B ", "Holder ", "Tank1 ", "Vacuum Tank "]
    for nm in r.sample([p + q for p in pre for q in PROTO], r.randrange(1, 5)):
        last = nm.split(" ")[-1]
        cols.append({"name": nm, "last": last, "word": last.lower()})
    comma = r.choice([", ", ","])
    y, mo, dd = r.randrange(1999, 2030), r.randrange(1, 13), r.randrange(1, 29)
    h, mi, s, ms = r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(1000)
    cal = r.choice(["", "", "E:\\AD21018_4.cal", "C:\\a b\\c.csv"])
    user = r.choice(["Enter User Name", "eric", None])
    meta = [("Calibration file", cal)] if cal else []
    meta += [("Date (yyyy.mm.dd)", f"{y}.{mo:02d}.{dd:02d}"), ("Time (hh:mm:ss.ms)", f"{h:02d}:{mi:02d}:{s:02d}.{ms:03d}"), ("Time units", "Milliseconds")]
    unit = dict(PROTO)
    if r.random() < 0.3:
        unit["Temperature"] = "Kelvin"
    meta += [(f"{k} units", v) for k, v in unit.items()]
    if user:
        meta.append(("User agreeing to terms", user))
    n = r.choice([r.randrange(5, 9)])
    t, rows = 0, []
    step = r.choice([50, 100, 147])
    uneven = r.random() < 0.5
    many = r.choice([0, 0, 0.2, 0.9])
    kind = {c["name"]: r.choice(["int", "mixed", "mixed"]) for c in cols}
    nums = r.random() < 0.2
    for i in range(n):
        note = ""
        if r.random() < many:
            note = r.choice(["12", "7", "3"] if nums else NOTES)
            if i == 0 and not user and " = " in note:
                note = "begin"  # (the end of the header could not be told)
        v = [r.choice([1000 * r.randrange(900), NAN, r.randrange(-10**6, 10**6)][: 1 if kind[c["name"]] == "int" else 3]) for c in cols]
        rows.append({"t": t, "note": note, "v": v})
        t += step + (r.randrange(-20, 20) if uneven else 0)
    e = {"fmt": "proto", "cols": cols, "rows": rows, "fname": r.choice(["a.csv", "log b.csv"])}
    e["meta"] = [{"k": k.split(" ")[0].lower(), "v": v} for k, v in meta if k.endswith(" units")]
    e["user"] = user or ""
    e["calib"] = cal or "The calibration files names are saved in the 'Original notes' array of the original metadata."
    e["date"], e["time"] = f"{y}-{mo:02d}-{dd:02d}", f"{h:02d}:{mi:02d}:{s:02d}.{ms:03d}000"
    out = ["Time, Notes" + "".join(comma + c["name"] for c in cols)]
    for k, v in meta:
        out.append(comma.join(["0", f"{k} = {v}"] + ["25"] * len(cols)))
    for x in rows:
        out.append(comma.join([str(x["t"]), x["note"]] + ["NaN" if n == NAN else num(r, n, "short" if kind[c["name"]] == "int" else None) for n, c in zip(x["v"], cols)]))
    e["body"] = "\n".join(out) + r.choice(["", "\n"])
    return e


def run_proto(e, d):
    from rsciio.protochips import file_reader

    fn = os.path.join(d, e["fname"])
    with open(fn, "w", encoding="latin1") as f:
        f.write(e["body"])
    L = file_reader(fn)
    sigs = []
    for D in L:
        (a,) = D["axes"]
        g = D["metadata"]["General"]
        assert a["index_in_array"] == 0 and g["original_filename"] == e["fname"]
        sigs.append({"data": [milli(x) for x in D["data"]], "title": g["title"], "quantity": D["metadata"]["Signal"]["quantity"], "size": a["size"],
                     "name": a["name"], "units": a["units"], "off": milli(a["offset"]), "nav": a["navigate"], "scale": round(float(a["scale"]) * 1000),
                     "date": g["date"], "time": g["time"]})
    h = L[0]["original_metadata"]["Protochips_header"]
    n = h["Original notes"]
    return {"sigs": sigs, "times": [int(x) for x in h["Time axis"]["value"]], "user": h.get("User", ""), "calib": h["Calibration file path"],
            "notes": [{"t": int(float(n[0][i])), "note": str(n[1][i])} for i in range(n.shape[1])]}


# ------------------------------------------------------------------ Impulse
IMP = ["Temperature Measured (degC)", "Pin Measured", "Pout Measured (mbar)", "Fnr", "% Gas1 Measured", "Channel#1", "Channel#2", "MixValve", "Power (mW)", "Rheat",
       "Temperature Setpoint (°C)"]


def gen_impulse(r):
    names = r.sample(IMP, r.randrange(1, 6))
    cols = []
    for nm in names:
        w = nm.split(" ")[-1]
        cols.append({"name": nm, "units": w[1:-1] if w.startswith("(") else ""})
    n = r.randrange(5, 9)
    t = r.randrange(0, 9000)
    step = r.choice([500, 501, 20])
    uneven = r.random() < 0.5
    rows = []
    for _ in range(n):
        rows.append({"t": t, "valve": [r.randrange(-2, 3) for _ in range(3)], "v": [r.choice([1000 * r.randrange(900), r.randrange(-10**6, 10**6)]) for c in cols]})
        t += step + (r.randrange(-9, 9) if uneven else 0)
    stem = r.choice(["Exp", "My Exp_1", "a_b_c"])
    e = {"fmt": "impulse", "cols": cols, "rows": rows, "bad": False}
    e["fname"] = stem + r.choice(["_Synchronized data.csv", "_Heat raw.csv", "_Gas raw.csv"])
    if r.random() < 0.1:
        e["fname"], e["bad"] = stem + "_other.csv", True
    e["date"] = f"{r.randrange(1, 29):02d}-{r.randrange(1, 13):02d}-2021"
    e["time"] = f"{r.randrange(24):02d}:{r.randrange(60):02d}:19"
    pars = [("Experiment date", e["date"]), ("Experiment time", e["time"]), ("Experiment duration", "00.00:06:45.416"), ("Sample", r.choice(["Gold", "Au, on SiN", ""])),
            ("Description", r.choice(["Experiment with stub data", "heat, then cool", "a, b, c"])), ("Calibration value", "0.25"), ("Gas1", "H2")]
    pars = pars[:2] + r.sample(pars[2:], r.randrange(0, 6))
    e["notes"] = [f"13:46:{i:02d}: {x}" for i, x in enumerate(r.choices(["Live note", "hot, stable", "a", "go"], k=r.randrange(0, 4)))]
    if e["notes"] and r.random() < 0.3:
        e["notes"].insert(r.randrange(1, len(e["notes"]) + 1), "")
    e["pars"] = [{"k": k.replace(" ", "_"), "v": v} for k, v in pars]
    log = [f"{k}, {v}" for k, v in pars]
    if e["notes"]:
        log += [f"Live notes, {e['notes'][0]}"] + e["notes"][1:]
    e["log"] = r.choice(["\n", "\r\n"]).join(log) + "\n"
    e["logname"] = "_".join(e["fname"].split("_")[:-1]) + "_Metadata.log"
    out = ["TimeStamp,Experiment time," + ",".join(names)]
    if r.random() < 0.04:
        out, e["bad"] = ["Time,Experiment time," + ",".join(names)], True
    for i, x in enumerate(rows):
        c = []
        for nm, v in zip(names, x["v"]):
            c.append("; ".join(map(str, x["valve"])) if nm == "MixValve" else num(r, v))
        out.append(f"13:40:{i:02d}.849,{num(r, x['t'], 'plain')}," + ",".join(c))
    e["body"] = "\n".join(out) + r.choice(["", "\n"])
    return e


def run_impulse(e, d):
    from rsciio.impulse import file_reader

    fn = os.path.join(d, e["fname"])
    with open(fn, "w") as f:
        f.write(e["body"])
    with open(os.path.join(d, e["logname"]), "w", newline="") as f:
        f.write(e["log"])
    L = file_reader(fn)
    sigs = []
    for D in L:
        (a,) = D["axes"]
        g = D["metadata"]["General"]
        assert a["index_in_array"] == 0 and g["original_filename"] == e["fname"] and a["units"] == "Seconds"
        sigs.append({"data": [milli(x) for x in D["data"]], "title": g["title"], "quantity": D["metadata"]["Signal"]["quantity"], "size": a["size"],
                     "name": a["name"], "off": milli(a["offset"]), "nav": a["navigate"], "scale": round(float(a["scale"]) * 1000), "date": g["date"], "time": g["time"]})
    h = dict(L[0]["original_metadata"]["Impulse_header"])
    notes = list(h.pop("Notes"))
    return {"sigs": sigs, "pars": [{"k": k, "v": v} for k, v in h.items()], "notes": notes}


GEN = {"msa": gen_msa, "dens": gen_dens, "proto": gen_proto, "impulse": gen_impulse}
RUN = {"msa": run_msa, "dens": run_dens, "proto": run_proto, "impulse": run_impulse}


def run(ctx):
    ctx.model_check(
        "TextLogsMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AllChannels TitleWhole EveryParameter OnePlace Energy SameAsFold Static\n"
        f"CONSTANTS MaxLines={4 if ctx.quick else 5}\n",
    )
    k = 250 if ctx.quick else 2500
    es = [GEN[f](ctx.rng) for f in GEN for _ in range(k * (2 if f == "msa" else 1))]
    d = ctx.dir()

    def one(i):
        dd = os.path.join(d, str(i))
        os.makedirs(dd)
        o = observe(RUN[es[i]["fmt"]], es[i], dd)
        shutil.rmtree(dd, ignore_errors=True)
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=30)
    tr = [dict(e, obs=o) for e, o in zip(es, obs)]
    judge(ctx, "TextLogsTrace", tr, lambda e: f"textlog-{e['fmt']}", chunk=10**6)
