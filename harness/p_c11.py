import io
import random
import struct
import zipfile

from docs import *
from gen import table
from pack import package, rels
from p_c07 import replay as replay_xml
from xmlio import AAS

ASSUMPTIONS = [
    "texts on which JSON parsers differ (NaN, repeated names, lone surrogates) need only get a verdict",
    "headers and directories of archives are not protected by checksums: damage there need only get a verdict",
]


# --------------------------------------------------------------------------------------------------------------------
# Texts

ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-32-be"]


def json_ways(w):
    """The text as a text file and as a binary file, in an encoding that depends on the text"""
    yield "text", io.StringIO(w)
    k = sum(map(ord, w)) % len(ENCODINGS)
    # (the encodings are told apart by the first four bytes, which takes ASCII characters there)
    enc = ENCODINGS[k] if len(w) >= 2 and all(0 < ord(c) < 128 for c in w[:4]) else "utf-8"
    yield enc, io.BytesIO(w.encode(enc, "surrogatepass"))


def replay_json(case):
    f = load()["file"]
    w = dec_str(case["w"])
    known = None
    for way, file in json_ways(w):
        st, obs = guarded(lambda: observe(f.check_json_file(file)))
        head = f"JSON text {w[:80]!r} ({way})"
        if case["s"] == "ok" and not w.startswith("\ufeff"):
            r = verdict_of(dict(case, c="Environment"), st, obs)
            if r == KNOWN:
                known = r
            elif r:
                return f"{head}: {r}"
        elif st != "ok":
            return f"{head}: {st}: {obs}"
        elif case["s"] == "bad" and obs["ok"] and not w.startswith("\ufeff"):
            return f"{head}: malformed but accepted"
    return known


HUNG = []


def replay_long(case):
    """Strings of repeated pieces (each process waits for one hang at most)"""
    f = load()["file"]
    if HUNG:
        return None
    for n in (2, 4, 6, 7, 10, case["n"]):
        s = dec_str(case["b"]) + (dec_str(case["p"]) * 2**n)[: 2**n] + dec_str(case["a"])
        d = dec_node(case["d"])
        d[case["at"]] = s
        st, obs = guarded(lambda: observe(f.check_json_data(d, model_type=case["c"])), limit=20)
        if st != "ok":
            HUNG.append(st)
            return f"{case['c']}.{case['at']} = {s[:60]!r}... ({len(s)} characters, type {d.get('valueType')}): {st}: {obs}"
    return None


TAGS = {"e": "environment", "s": "submodels", "m": "submodel", "i": "id"}


def xml_token(t):
    m = re.fullmatch(r"<(/?)([esmi])(/?)>", t)
    if not m:
        return dec_str(t)
    return f"</{TAGS[m[2]]}>" if m[1] else f'<{TAGS[m[2]]} xmlns="{AAS}"{m[3]}>'


def replay_xmltext(case):
    f = load()["file"]
    w = "".join(xml_token(t) for t in case["w"] or [])
    known = None
    for way, file in (("text", io.StringIO(w)), ("bytes", io.BytesIO(w.encode()))):
        st, obs = guarded(lambda: observe(f.check_xml_file(file)))
        head = f"XML text {''.join(case['w'] or [])[:80]!r} ({way})"
        if case["s"] == "bad":
            if st != "ok":
                return f"{head}: {st}: {obs}"
            if obs["ok"]:
                return f"{head}: malformed but accepted"
            continue
        r = judge_xml(case, st, obs)
        if r == KNOWN:
            known = r
        elif r:
            return f"{head}: {r}"
    return known


def judge_xml(case, st, obs):
    if case["bad"]:
        if st == "ok" and not obs["ok"]:
            return None
        if listed(case["dev"]) and (compare(case["k"], obs) is None if st == "ok" else "-xml-short-tag" in case["dev"]):
            return KNOWN
        return "deviates from every rendering but is accepted" if st == "ok" else f"{st}: {obs}"
    return verdict_of(case, st, obs)


# --------------------------------------------------------------------------------------------------------------------
# Arbitrary values and trees

STRS = ["", "a", "1", "Submodel", "Property", "x" * 200, "\x00", "\ud800", "\U0001F600", "xs:int", "ExternalReference", "en", "true"]


def any_value(rnd, tab, depth):
    """An arbitrary JSON value, biased to names of the metamodel"""
    k = rnd.random()
    if depth <= 0 or k < 0.3:
        return rnd.choice([None, True, False, 0, 1, -1.5, 10**30, rnd.choice(STRS), rnd.choice(STRS), rnd.choice(tab["names"])])
    if k < 0.5:
        return [any_value(rnd, tab, depth - 1) for _ in range(rnd.randint(0, 3))]
    d = {}
    for _ in range(rnd.randint(0, 5)):
        d[rnd.choice(tab["names"] if rnd.random() < 0.9 else STRS[:9])] = any_value(rnd, tab, depth - 1)
    if rnd.random() < 0.6:
        d["modelType"] = rnd.choice(tab["classes"])
    return d


def any_tree(rnd, tab, depth, g=None):
    e = {"g": g or rnd.choice(tab["xnames"]), "ns": "aas" if rnd.random() < 0.9 else rnd.choice(["none", "short", "long", "near"]),
         "x": "", "tl": "", "c": [], "k": "odd", "ab": False}
    if rnd.random() < 0.3:
        e["x"] = rnd.choice([" ", "a", "true", "1", "xs:int", "ExternalReference", "{10}"])
    if rnd.random() < 0.05:
        e["tl"] = rnd.choice(["z", " "])
    if depth > 0:
        e["c"] = [any_tree(rnd, tab, depth - 1) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3, 4]))]
    return e


def mutate(rnd, v, tab):
    """Replaces a random part of a JSON value by an arbitrary one"""
    if rnd.random() < 0.15 or not isinstance(v, (dict, list)) or not v:
        return any_value(rnd, tab, 2)
    if isinstance(v, list):
        i = rnd.randrange(len(v))
        return v[:i] + [mutate(rnd, v[i], tab)] + v[i + 1 :]
    k = rnd.choice(sorted(v))
    return {**v, k: mutate(rnd, v[k], tab)}


def xmutate(rnd, e, tab):
    e = dict(e)
    if rnd.random() < 0.2 or not e["c"]:
        return any_tree(rnd, tab, 2, e["g"] if rnd.random() < 0.5 else None)
    i = rnd.randrange(len(e["c"]))
    e["c"] = e["c"][:i] + [xmutate(rnd, e["c"][i], tab)] + e["c"][i + 1 :]
    return e


def values(rep):
    tab = dict(table(rep))
    tab["names"] = sorted({a for c in tab["attrs"].values() for a in c})
    tab["classes"] = sorted(tab["attrs"]) + sorted(set(tab["abstract"]) - {"EventElement"})
    tab["xnames"] = tab["names"] + sorted({c[0].lower() + c[1:] for c in tab["classes"]} - {"operationVariable", "dataSpecificationContent"})
    n = 10 if rep.thorough else 1
    rnd = random.Random(f"{rep.seed}/values")
    docs = []
    for i in range(1500 * n):
        docs.append((rnd.choice(tab["classes"]), any_value(rnd, tab, 4)))
    for i in range(1500 * n):
        c = rnd.choice(sorted(tab["max"]))
        d = tab[rnd.choice(["max", "max", "min"])][c]
        for _ in range(rnd.randint(1, 3)):
            d = mutate(rnd, d, tab)
        docs.append((rnd.choice([c, c, "SubmodelElement", "DataElement"]), d))
    validate_docs(rep, docs, "verdict on an arbitrary value")
    recs = []
    for i in range(1500 * n):
        recs.append({"c": rnd.choice(tab["classes"]), "x": any_tree(rnd, tab, 4)})
    base = [{"c": c, "d": enc_node(d)} for c, d in sorted(tab["max"].items())]
    full = [(r["c"], v["x"]) for r, v in judge_traces(rep, "XmlDocs", base) if v["c"]]
    for i in range(1500 * n):
        c, x = rnd.choice(full)
        for _ in range(rnd.randint(1, 3)):
            x = xmutate(rnd, x, tab)
        recs.append({"c": c, "x": x})
    cases = [v for _, v in judge_traces(rep, "XmlTrace", recs, lambda r: len(json.dumps(r["x"])))]
    for v, m in zip(cases, pmap(replay_tree, cases)):
        rep.count("trees_" + ("bad" if v["bad"] else v["r"]["phase"]))
        if m == KNOWN:
            rep.count("known_deviation")
        elif m:
            rep.violation(m, v)
    rep.validated += len(cases)


def replay_tree(case):
    # indentation would be text where the tree is read as text
    m = replay_xml(dict(case, st="plain" if case["st"] == "indented" else case["st"]))
    # what is special about some names is left open, but there must be a verdict
    return None if m and case["any"] and "raised" not in m and "hang" not in m else m


# --------------------------------------------------------------------------------------------------------------------
# Bytes and archives


def regions(raw, unread):
    """[(start, end, region)]"""
    out = []
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        for i in z.infolist():
            nl, el = struct.unpack("<HH", raw[i.header_offset + 26 : i.header_offset + 30])
            a = i.header_offset + 30 + nl + el
            out.append((i.header_offset, a, "header"))
            if i.compress_size:
                out.append((a, a + i.compress_size, "other" if i.filename in unread or i.compress_type else "data"))
        out.append((z.start_dir, len(raw) - 22, "directory"))
    out.append((len(raw) - 22, len(raw), "end"))
    return out


def packages():
    """Valid packages; ones whose archive members are compressed are repacked"""
    doc = json.dumps({"submodels": [{"modelType": "Submodel", "id": "s" * 30}]}).encode()
    xml = f'<environment xmlns="{AAS}"/>'.encode()
    base = package("/aasx/e.json", doc, [("/aasx/f.xml", xml)])
    for comp in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA):
        b = io.BytesIO()
        with zipfile.ZipFile(io.BytesIO(base)) as src, zipfile.ZipFile(b, "w", comp) as z:
            for i in src.infolist():
                z.writestr(i.filename, src.read(i.filename))
            z.writestr("aasx/unused.bin", b"12345")
        yield b.getvalue()


def outcome(raw, kind="aasx"):
    f = load()["file"]
    fn = {"aasx": f.check_aasx_file, "json": f.check_json_file, "xml": f.check_xml_file}[kind]
    st, r = guarded(lambda: fn(io.BytesIO(raw)).ok())
    return ("ok" if r else "error", "") if st == "ok" else (st, r)


def _outcome(arg):
    return outcome(*arg)


def archives(rep):
    rnd = random.Random(f"{rep.seed}/archives")
    jobs = []
    for k, raw in enumerate(packages()):
        jobs.append(("none", "", raw, "aasx"))
        step = 1 if rep.thorough or k < 2 else 7
        jobs += [("cut", "", raw[:n], "aasx") for n in range(0, len(raw), step)]
        for a, b, at in regions(raw, {"aasx/unused.bin"}):
            for i in range(a, b):
                masks = {1, 0x80, 0xFF, rnd.randrange(1, 256)} if rep.thorough else {rnd.choice([1, 0x80, 0xFF, rnd.randrange(1, 256)])}
                for m in masks:
                    jobs.append(("flip", at, raw[:i] + bytes([raw[i] ^ m]) + raw[i + 1 :], "aasx"))
        for _ in range(20000 if rep.thorough else 1500):
            m = bytearray(raw)
            for _ in range(rnd.randint(2, 5)):
                m[rnd.randrange(len(m))] = rnd.choice([0, 255, rnd.randrange(256)])
            if rnd.random() < 0.2:
                i, j = sorted(rnd.randrange(len(m)) for _ in range(2))
                m = m[:i] + m[j:] if rnd.random() < 0.5 else m[:j] + m[i:]
            jobs.append(("edit", "", bytes(m), "aasx"))
    doc = json.dumps({"submodels": [{"modelType": "Submodel", "id": "\u00e4\u20ac"}]}, ensure_ascii=False).encode()
    xml = f'<environment xmlns="{AAS}"><submodels><submodel><id>\u00e4\u20ac</id></submodel></submodels></environment>'.encode()
    for _ in range(20000 if rep.thorough else 2000):
        for kind in ("aasx", "json", "xml"):
            jobs.append(("junk", "", bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 8, 40]))) + b"\xff", kind))
        for kind, d in (("json", doc), ("xml", xml)):
            m = bytearray(d)
            for _ in range(rnd.randint(1, 4)):
                m[rnd.randrange(len(m))] = rnd.choice([0, 255, 0xC0, 0xED, rnd.randrange(256), ord(rnd.choice("{}[]<>/\"&:,"))])
            jobs.append(("edit", "", bytes(m), kind))
    for kind, d in (("json", doc), ("xml", xml)):
        jobs += [("cut", "", d[:n], kind) for n in range(len(d))]
    # undecodable bytes inside an otherwise valid text, unknown and unsuitable encodings
    for bad in (b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf8\x88\x80\x80\x80", b"\xf4\x90\x80\x80"):
        jobs.append(("junk", "", doc.replace("\u00e4".encode(), bad), "json"))
        jobs.append(("junk", "", xml.replace("\u00e4".encode(), bad), "xml"))
    for enc in ("x-none", "utf-99", "", "utf-16", "utf-32", "ucs-4", "\u00e4", "idna", "hex", "rot13", "base64", "unicode_escape", "undefined", "cp037"):
        jobs.append(("edit", "", f'<?xml version="1.0" encoding="{enc}"?>'.encode() + xml, "xml"))
    for raw in (b"", b"\x00", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x00\x00\xfe\xff", b"\xff\xfe\x00\x00", b" ", b"\n", b"<", b"{", b"PK", b"PK\x05\x06", b"PK\x05\x06" + bytes(17)):
        for kind in ("aasx", "json", "xml"):
            jobs.append(("junk", "", raw, kind))
    # numbers beyond every bound, deep nesting
    for t in ("1" * 5000, "[" + "9" * 100000 + "]", '{"a":1e999999}', "-" + "1" * 5000, '{"submodels":' + "1" * 5000 + "}"):
        jobs.append(("junk", "", t.encode(), "json"))
    for n in (50, 500, 990, 1500, 5000, 100000):
        jobs.append(("junk", "", b"[" * n + b"]" * n, "json"))
        jobs.append(("junk", "", b"[" * n, "json"))
        jobs.append(("junk", "", b'{"a":' * n + b"1" + b"}" * n, "json"))
        jobs.append(("junk", "", b"<a>" * n + b"</a>" * n, "xml"))
        jobs.append(("junk", "", b"<a>" * n, "xml"))
        smc = b'{"modelType":"SubmodelElementCollection","idShort":"a","value":['
        jobs.append(("edit", "", b'{"submodels":[{"modelType":"Submodel","id":"a","submodelElements":[' + smc * n + b'{"modelType":"Capability","idShort":"a"}' + b"]}" * n + b"]}]}", "json"))
        xs = b"<submodelElementCollection><idShort>a</idShort><value>"
        jobs.append(("edit", "", f'<environment xmlns="{AAS}"><submodels><submodel><id>a</id><submodelElements>'.encode() + xs * n + b"<capability><idShort>a</idShort></capability>"
                     + b"</value></submodelElementCollection>" * n + b"</submodelElements></submodel></submodels></environment>", "xml"))
    outs = pmap(_outcome, [(j[2], j[3]) for j in jobs])
    recs = [{"op": op, "at": at, "out": o, "kind": kind, "what": enc_str(w)[:200], "bytes": raw[:3000].hex()} for (op, at, raw, kind), (o, w) in zip(jobs, outs)]
    for r, v in judge_traces(rep, "ArchTrace", [{**r, "bytes": ""} | {"id": i} for i, r in enumerate(recs)]):
        rep.count(f"{r['kind']}_{r['op']}_{r['at']}".rstrip("_"))
        if not v["ok"]:
            rep.violation(f"{r['kind']} bytes, {r['op']} {r['at']}: {r['out']} {r['what']}", recs[r["id"]])


def run(rep):
    replay_lines(rep, rep.tlc("JsonText", parse=False).lines, replay_json)
    replay_lines(rep, rep.tlc("XmlText", parse=False).lines, replay_xmltext)
    replay_lines(rep, rep.tlc("LongText", parse=False).lines, replay_long)
    values(rep)
    archives(rep)
