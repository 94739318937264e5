"""XML trees as dictionaries (spec: XmlTree*.tla)."""
import ast
import copy
from xml.etree import ElementTree as ET

from ..pmap import observe
from .c10 import judge

LEVEL = "model_checking"

#: texts that mean something, and what they mean (type: repr)
LITS = {"5": "int:5", "-3": "int:-3", "0.25": "float:0.25", "1e-3": "float:0.001", "True": "bool:True", "None": "none:",
        "(1, 2)": "tuple:(1, 2)", "1,2": "tuple:(1, 2)", "[1, 'a']": "list:[1, 'a']",
        "'q'": "str:q", "'5'": "str:5", '"12"': "str:12", "0x10": "int:16", "1.": "float:1.0", "0,5": "tuple:(0, 5)", "12345678901234567890": "int:12345678901234567890"}
WORDS = ["abc", "true", "8842_80", "1_000.5", "007", "1.2.3", "a b", "5 keV", "{[]}", "{{}}", "...", "nan", "é µm", "10:20", "2020-01-02",
         "(1", "')", "[1,", "1 2", "x" * 50, "(" * 300, "{3F25-04E0}", "#value", "lambda: 0", "__import__('os')", "f()", "a.b", "&<>\"'", "-", "1e", "50%"]
TAGS = ["a", "b", "c", "Item", "ClassInstance", "TRTHeader"]


def val(x):
    if isinstance(x, dict) and not getattr(x, "_lit", False):
        return {"k": "d", "x": [{"n": k, "v": val(v)} for k, v in x.items()]}
    if isinstance(x, list):
        return {"k": "l", "x": [val(v) for v in x]}
    return lit(x)


def lit(x):
    if x is None:
        return {"k": "v", "v": "none:"}
    return {"k": "v", "v": f"{type(x).__name__}:{x}"}


def clean(v, table):
    """Literals that are containers are single values in the specification."""
    for s, m in table.items():
        kind = m.split(":", 1)[0]
        if kind in ("list", "dict", "tuple"):
            obj = ast.literal_eval(s)
            if type(v) is type(obj) and v == obj:
                return {"k": "v", "v": m}
    if isinstance(v, dict):
        return {"k": "d", "x": [{"n": str(k), "v": clean(x, table)} for k, x in v.items()]}
    if isinstance(v, list):
        return {"k": "l", "x": [clean(x, table) for x in v]}
    return lit(v)


def text(r, p=0.5):
    if r.random() > p:
        return ""
    return r.choice(WORDS) if r.random() < 0.5 else r.choice(list(LITS))


def node(r, depth, flat, plain=False):
    tag = r.choice(TAGS)
    n = {"tag": tag, "attrs": [], "text": "", "tail": "", "kids": []}
    for k in r.sample(["p", "q", "Type"], r.choice([0, 0, 1, 1, 2])):
        n["attrs"].append({"k": k, "v": text(r, 0.9)})
    if depth and r.random() < 0.8:
        n["kids"] = [node(r, depth - 1, flat, plain) for _ in range(r.choice([1, 1, 2, 3, 5]))]
    n["text"] = text(r, 0.3 if n["kids"] else 0.6)
    n["tail"] = "" if r.random() < 0.6 else r.choice(["z", "and so on", "5"])
    if plain:
        n["tail"] = ""
        if n["kids"] or n["attrs"]:
            n["text"] = ""
        seen, kids = set(), []
        for k in n["kids"]:
            if k["tag"] not in seen:
                seen.add(k["tag"])
                kids.append(k)
        n["kids"] = kids
    return n


def etree(r, n, space, plain=False):
    def pad(s):
        if plain and s:
            return s
        return s if not space else ("\n  " + s + " \n" if s else "\n  ") if r.random() < 0.7 else s

    el = ET.Element(n["tag"], {a["k"]: a["v"] for a in n["attrs"]})
    el.text = pad(n["text"]) or None
    for k in n["kids"]:
        el.append(etree(r, k, space, plain))
    el.tail = pad(n["tail"]) or None
    return el


def clash(n, o):
    """The same key for two things (their meaning is left to the one who chose the options)."""
    def keys(m):
        res = []
        for k in m["kids"]:
            res += keys2(k)
        pre = o["pre"] if m["kids"] else ""
        at = [pre + a["k"] for a in m["attrs"]]
        tx = [o["txt"], "#interchild_text"] if m["text"] else []
        if set(at) & (set(res) | set(tx)) or set(tx) & set(res):
            raise KeyError
        return list(set(res)) + at + tx

    def keys2(m):
        ks = keys(m)
        return ks if m["tag"] in o["flat"] else [m["tag"]]

    try:
        keys(n)
        return False
    except KeyError:
        return True


def run_dict(e, r):
    from rsciio.utils.xml import XmlToDict

    o = e["o"]
    kw = {}
    if o["pre"] != "@":
        kw["dub_attr_pre_str"] = o["pre"]
    if o["txt"] != "#value":
        kw["dub_text_str"] = o["txt"]
    if o["flat"] or r.random() < 0.5:
        kw["tags_to_flatten"] = o["flat"] if len(o["flat"]) != 1 or r.random() < 0.5 else o["flat"][0]
    if o["mode"] != "first":
        kw["interchild_text_parsing"] = o["mode"]
    x = XmlToDict(**kw)
    el = etree(r, e["node"], e["space"])
    if r.random() < 0.5:  # through the parser
        el = ET.fromstring(ET.tostring(el, encoding="unicode"))
    before = ET.tostring(el)
    a = x.dictionarize(el)
    keep = copy.deepcopy(a)
    b = x.dictionarize(el)
    return {"v": clean(a, LITS), "again": a == b and a == keep and before == ET.tostring(el) and a is not b}


def run_plain(e, r):
    from rsciio.utils.xml import convert_xml_to_dict

    el = etree(r, e["node"], e["space"], True)
    d = convert_xml_to_dict(ET.tostring(el, encoding="unicode") if r.random() < 0.5 else el)
    d = d.to_dict() if hasattr(d, "to_dict") else dict(d)
    return {"v": val(d)}


def number(r):
    s = r.choice(["", "", "-", "+"]) + r.choice(["0", "1", "12", ""]) + r.choice([",", ",", ",", ".", ",,", ""]) + r.choice(["", "5", "25"])
    if r.random() < 0.5:
        s += r.choice(["E", "e"]) + r.choice(["", "-", "+", "--"]) + r.choice(["5", "05", ""])
    if r.random() < 0.1:
        s += r.choice([" ", "a", ",3", " keV"])
    if r.random() < 0.05:
        s = " " + s
    return s


def run_comma(e, r):
    from rsciio.utils.xml import sanitize_msxml_float

    # the same texts as attributes and in between stay as they are
    def xml(ts):
        return ("<m>" + "".join(f"<v a='{a}'>{t}</v>" for a, t in zip(e["raw"], ts)) + "</m>").encode()

    out = sanitize_msxml_float(xml(e["raw"]))
    got = [x.text or "" for x in ET.fromstring(out)]
    return {"t": [list(g) for g in got], "rest": out == xml(got)}


def run(ctx):
    ctx.model_check(
        "XmlTreeMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AttributesKept TextsKept KeysDistinct ItselfSame\n"
        f"CONSTANTS MaxKids={1 if ctx.quick else 2}\n",
    )
    r = ctx.rng
    tr = []
    while len(tr) < (600 if ctx.quick else 6000):
        o = {"pre": r.choice(["@", "@", "XmlClass", ""]), "txt": r.choice(["#value", "#value", "#text"]),
             "flat": r.choice([[], [], ["ClassInstance"], ["ClassInstance"], ["ClassInstance", "Item"]]),
             "mode": r.choice(["first", "first", "skip", "cat", "list"]), "lit": LITS}
        e = {"ev": "dict", "o": o, "node": node(r, r.choice([1, 2, 3]), o["flat"]), "space": r.random() < 0.5}
        e["node"]["tail"] = ""
        n = e["node"]
        if clash(n, o) or (n["tag"] in o["flat"] and not (n["kids"] or n["attrs"])):
            continue
        tr.append(dict(e, obs=observe(run_dict, e, r)))
    for _ in range(200 if ctx.quick else 2000):
        e = {"ev": "plain", "node": node(r, r.choice([1, 2, 3]), [], plain=True), "space": r.random() < 0.5}
        if any(set(a["k"] for a in m["attrs"]) & set(k["tag"] for k in m["kids"]) for m in walk(e["node"])):
            continue
        tr.append(dict(e, obs=observe(run_plain, e, r)))
    for _ in range(100 if ctx.quick else 1000):
        raw = [number(r) for _ in range(20)]
        e = {"ev": "comma", "raw": raw, "t": [list(x) for x in raw]}
        tr.append(dict(e, obs=observe(run_comma, e, r)))
    judge(ctx, "XmlTreeTrace", tr, lambda e: f"xml-{e['ev']}", chunk=10**6)


def walk(n):
    yield n
    for k in n["kids"]:
        yield from walk(k)
