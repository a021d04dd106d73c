import io
import random
import struct
import zipfile

from common import *

ASSUMPTIONS = [
    "targets are written with forward slashes and without percent-encoding or surrounding white space; part names are case sensitive",
    "external targets, upper case extensions and administrative parts as specifications are out of scope",
    "if the package itself is in error, whether its files are checked too is left open",
]
T = "http://admin-shell.io/aasx/relationships/"
W = "http://www.admin-shell.io/aasx/relationships/"
TYPES = {
    "origin": T + "aasx-origin", "spec": T + "aas-spec", "suppl": T + "aas-suppl",
    "dorigin": W + "aasx-origin", "dspec": W + "aas-spec", "dsuppl": W + "aas-suppl",
    "thumb": "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail",
}
# types which are none of these, though some look like them
OTHER = ["http://example.com/whatever", T + "aas-spec/", T + "aasx-origin/", T + "aas-specs", T + "AAS-spec", "https" + T[4:] + "aas-spec", "https" + T[4:] + "aasx-origin", "aas-spec", "aasx-origin", "",
         W + "aas-spec/", W + "aasx-origin#", T + "aas-spec#a", T + "aasx-origin?", T, T + "aas_spec", T.replace("aasx/", "") + "aas-spec", W.replace("www.", "WWW.") + "aas-spec", "x" + T + "aas-spec",
         "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", T + "aas-origin", T + "aasx-spec", T + "aasx-suppl"]
NS_C = "http://schemas.openxmlformats.org/package/2006/content-types"
NS_R = "http://schemas.openxmlformats.org/package/2006/relationships"
NS_A = "https://admin-shell.io/aas/3/0"


def admin(kind, ns, root, body):
    if kind == "notxml":
        return b"<" + root.encode()
    if kind == "badroot":
        return f'<Other xmlns="{ns}">{body}</Other>'.encode()
    if kind == "badns":
        return f'<{root} xmlns="http://example.com/">{body}</{root}>'.encode()
    if kind == "empty":
        return b""
    if kind == "encoding":
        return f'<?xml version="1.0" encoding="x-none"?><{root} xmlns="{ns}">{body}</{root}>'.encode()
    return f'<?xml version="1.0"?>\n<{root} xmlns="{ns}">{body}</{root}>'.encode()


def written(p):
    return ("/" if p["abs"] else "") + "/".join(p["s"] or [])


def entry(e, i):
    a = []
    if e["k"] not in ("notype", "neither"):
        a.append(f'Type="{TYPES[e["y"]] if e["y"] != "other" else OTHER[i % len(OTHER)]}"')
    if e["k"] not in ("notarget", "neither"):
        a.append(f'Target="{written(e["p"])}"')
    a.insert(i % 3, f'Id="r{i}"')
    tag = "Relation" if e["k"] == "badtag" else "Relationship"
    ns = ' xmlns="http://example.com/"' if e["k"] == "badns" else ""
    return f"<{tag}{ns} {' '.join(a)}/>" if i % 2 else f"<{tag}{ns} {' '.join(a)}></{tag}>\n"


CONTENT = {
    "jok": "{}",
    "jbad": '{"mark%dz": 1}',
    "xok": f'<environment xmlns="{NS_A}"/>',
    "xbad": f'<environment xmlns="{NS_A}"><mark%dz/></environment>',
    "garbage": "\x00\xff{<",
    "empty": "",
    "damaged": "{}",
}


def build(g, salt=0):
    """The package as bytes"""
    entries = []

    def rels(name, x):
        if x["rs"] != "none":
            head, _, tail = name.rpartition("/")
            n = (head + "/" if head else "") + "_rels/" + tail + ".rels"
            body = "".join(entry(e, i + salt) for i, e in enumerate(x["r"] or []))
            entries.append((n, admin(x["rs"], NS_R, "Relationships", body), x["rs"]))

    if g["ct"] != "none":
        entries.append(("[Content_Types].xml", admin(g["ct"], NS_C, "Types", '<Default Extension="json" ContentType="text/json"/>'), g["ct"]))
    rels("", g["root"])
    for i, p in enumerate(g["parts"] or []):
        name = "/".join(p["n"])
        c = CONTENT[p["c"]]
        entries.append((name, (c % i if "%d" in c else c).encode("latin-1"), p["c"]))
        rels(name, p)
    if salt % 2:
        entries.reverse()
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED if salt % 3 == 1 else zipfile.ZIP_STORED) as z:
        for n, data, _ in entries:
            z.writestr(n, data)
    raw = bytearray(buf.getvalue())
    for n, data, kind in entries:
        if kind not in ("damaged", "encrypted"):
            continue
        with zipfile.ZipFile(io.BytesIO(bytes(raw))) as z:
            info = z.getinfo(n)
        off = info.header_offset
        if kind == "encrypted":
            raw[off + 6] |= 1
            # the central directory counts
            c = raw.find(b"PK\x01\x02")
            while c >= 0:
                if struct.unpack("<I", raw[c + 42 : c + 46])[0] == off:
                    raw[c + 8] |= 1
                c = raw.find(b"PK\x01\x02", c + 4)
        else:
            nl, el = struct.unpack("<HH", raw[off + 26 : off + 30])
            raw[off + 30 + nl + el] ^= 0x5A
    return bytes(raw)


_MARK = re.compile(r"mark(\d+)z")


def look(raw, salt=0):
    f = load()["file"]
    if salt % 4 == 3:
        r = f.check_aasx_data(zipfile.ZipFile(io.BytesIO(raw)))
    else:
        r = f.check_aasx_file(io.BytesIO(raw))
    lv = [(l, m) for l, m in leaves(r) if l > 0]
    errs = [m for l, m in lv if l >= 2]
    warns = [m for l, m in lv if l == 1 and "kipped" not in m]
    marks = sorted({int(i) for m in errs for i in _MARK.findall(m)})
    return {"ok": r.ok(), "level": sev_of(r.level), "errors": len(errs), "warns": len(warns), "marks": marks, "msgs": [m for _, m in lv][:8]}


def salt_of(g):
    return len(json.dumps(g))


def judge(g, v, o):
    if o["ok"] != (v["level"] < 2):
        return f"verdict ok={o['ok']}, expected level {v['level']}"
    if v["errors"]:
        if o["errors"] < v["errors"]:
            return f"{o['errors']} errors for {v['errors']} defects of the package"
        return None
    parts = g["parts"] or []
    bad = v["bad"] or []
    marked = sorted(i - 1 for i in bad if (parts[i - 1]["x"], parts[i - 1]["c"]) in (("json", "jbad"), ("xml", "xbad")))
    if marked != o["marks"]:
        return f"specifications reported as bad: {o['marks']}, expected {marked}"
    if o["errors"] < len(bad):
        return f"{o['errors']} errors for {len(bad)} bad specifications"
    if not v["wmin"] <= o["warns"] <= v["wmax"]:
        return f"{o['warns']} warnings, expected {v['wmin']} to {v['wmax']}"
    # skipped constraint checks of bad specifications are warnings below an error
    if o["level"] != v["level"]:
        return f"level {o['level']}, expected {v['level']}"
    return None


def replay(case):
    g, v = case["g"], case["v"]
    s = salt_of(g)
    st, o = guarded(lambda: look(build(g, s), s))
    if st != "ok":
        return f"package check: {st}: {o}"
    m = judge(g, v, o)
    return m and f"package check: {m}: {o['msgs']}"


# --------------------------------------------------------------------------------------------------------------------
# Random larger packages, judged by OpcTrace


def random_pkg(rnd):
    dirs = [[], ["aasx"], ["aasx", "d"], ["b"], ["aasx", "d", "e"]]
    # some have many parts and relationships, with few things wrong
    wide = rnd.random() < 0.015
    n = rnd.randrange(30, 60) if wide else rnd.randrange(1, 12)
    good = 0.985 if wide else 0.65
    parts = []
    for i in range(n):
        ext = rnd.choice(["json", "xml", "other"])
        d = rnd.choice(dirs)
        name = d + [f"p{i}" + {"json": ".json", "xml": ".xml", "other": rnd.choice(["", ".txt", ".json.bak", ".xmlx"])}[ext]]
        ok = {"json": "jok", "xml": "xok"}.get(ext, "jok")
        c = ok if rnd.random() < good else rnd.choice(["jok", "jbad", "xok", "xbad", "garbage", "empty"] + ([] if ext == "other" else ["damaged"]))
        parts.append({"n": name, "x": ext, "c": c, "rs": "none", "r": []})

    def target(src_dir, to):
        k = rnd.randrange(5)
        if k < 2:
            s, ab = list(to), True
        else:
            j = 0
            while j < len(src_dir) and j < len(to) - 1 and src_dir[j] == to[j] and rnd.random() < 0.8:
                j += 1
            s, ab = [".."] * (len(src_dir) - j) + list(to[j:]), False
        if rnd.random() < 0.2:
            i = rnd.randrange(1, len(s) + 1)
            s[i:i] = rnd.choice([["."], ["x", ".."], ["", "."] if i else ["."], ["q", "r", "..", ".."]])
        if not ab and rnd.random() < 0.05:
            s[:0] = [".."] * 4
            s = [".."] * 4 + list(to)
        if not ab and s[0] == "":
            s = ["."] + s
        return {"abs": ab, "s": s}

    def rels(src_dir, root):
        out = []
        many = wide and (root or rnd.random() < 0.1)
        for _ in range(rnd.randrange(40, 80) if many else rnd.choice([1, 1, 1, 2, 3] if root else [0, 1, 1, 2, 4])):
            x = rnd.random() / (1.013 if wide else 1)
            y = rnd.choice(["origin", "origin", "origin", "origin", "dorigin", "suppl", "thumb", "spec"] if root else ["spec", "spec", "dspec", "suppl", "dsuppl", "origin", "other"])
            to = rnd.choice(parts)["n"] if x < 0.985 else ["nowhere", "x.json"]
            out.append({"k": "ok" if rnd.random() < (0.999 if wide else 0.99) else rnd.choice(["badtag", "badns", "notype", "notarget", "neither"]), "y": y, "p": target(src_dir, to)})
        return out

    for p in parts:
        if rnd.random() < 0.8:
            p["rs"] = "ok" if rnd.random() < 0.985 else rnd.choice(["notxml", "badroot", "badns", "damaged", "encrypted", "empty", "encoding"])
            p["r"] = rels(p["n"][:-1], False)
    return {"ct": "ok" if rnd.random() < 0.98 else "badroot", "root": {"rs": "ok" if rnd.random() < 0.99 else "none", "r": rels([], True)}, "parts": parts}


def record(seed):
    rnd = random.Random(seed)
    g = random_pkg(rnd)
    s = rnd.randrange(100)
    st, o = guarded(lambda: look(build(g, s), s))
    if st != "ok":
        return st, {"g": g, "what": o}
    return "ok", {"g": g, "o": o}


def deep(rep):
    """Long chains and large stars"""
    def pkg(n, link):
        parts = [{"n": ["c", f"p{i}"], "x": "other", "c": "jok", "rs": "none", "r": []} for i in range(n)]
        link(parts)
        return {"ct": "ok", "root": {"rs": "ok", "r": [{"k": "ok", "y": "origin", "p": {"abs": True, "s": ["c", "p0"]}}]}, "parts": parts}

    def rel(i, y="spec"):
        return {"k": "ok", "y": y, "p": {"abs": False, "s": [f"p{i}"]}}

    def chain(parts):
        for i in range(len(parts) - 1):
            parts[i]["rs"], parts[i]["r"] = "ok", [rel(i + 1)]

    def dense(parts):
        for i, p in enumerate(parts):
            p["rs"], p["r"] = "ok", [rel(j) for j in range(len(parts))]

    for n in (50, 100, 200):
        g = pkg(n, chain)
        st, o = guarded(lambda: look(build(g)))
        rep.validated += 1
        if st != "ok" or not o["ok"] or o["errors"]:
            rep.violation(f"chain of {n} relationships: {st} {o}", {"chain": n})
    g = pkg(3000, chain)
    st, o = guarded(lambda: look(build(g)), limit=60)
    rep.validated += 1
    if st != "ok":
        rep.violation(f"chain of 3000 relationships: {st} {o}", {"chain": 3000})
    elif not o["ok"]:
        rep.violation("deep-chain: chain of 3000 relationships is rejected", {"chain": 3000})
    g = pkg(25, dense)
    st, o = guarded(lambda: look(build(g)), limit=60)
    rep.validated += 1
    if st != "ok" or not o["ok"] or not 24 <= o["warns"] <= 25:
        rep.violation(f"complete graph of 25 parts: {st} {o}", {"dense": 25})


def run(rep):
    if rep.thorough:
        rep.tlc("OpcScan", cfg="OpcTerm.cfg", env={"TIER": "quick"}, parse=False)
    r = rep.tlc("OpcScan", parse=False, timeout=3000)
    replay_lines(rep, r.lines, replay)
    deep(rep)
    n = 20000 if rep.thorough else 3000
    recs = []
    for st, x in pmap(record, [f"{rep.seed}/opc/{i}" for i in range(n)]):
        if st != "ok":
            rep.violation(f"package check: {st}: {x['what']}", x["g"])
        else:
            recs.append(x)
    for rec, v in judge_traces(rep, "OpcTrace", recs, lambda r: len(r["g"]["parts"])):
        rep.count("random_error" if v["v"]["errors"] else "random_bad" if v["v"]["bad"] else "random_ok")
        m = judge(rec["g"], v["v"], rec["o"])
        if m:
            rep.violation(f"package check: {m}: {rec['o']['msgs']}", rec["g"])
