import io
import zipfile

from docs import *
from pack import package
from xmlio import encode, element

ASSUMPTIONS = [
    "only acceptance is compared: which problem of a template is named, and where, is left open",
    "the semantic id is the value of the first key, whatever the type of the reference",
]


def ways(case):
    f = load()["file"]
    c, x = case["c"], case.get("x")
    if x:
        yield "xml file", lambda: f.check_xml_file(io.BytesIO(encode(x, case["st"])), model_type=c)
        yield "xml tree", lambda: f.check_xml_data(element(x), model_type=c)
        if c == "Environment":
            yield "package of xml", lambda: f.check_aasx_file(io.BytesIO(package("/aasx/e.xml", encode(x, "plain"))))
        return
    d = dec_node(case["d"])
    t = json.dumps(d)
    yield "data", lambda: f.check_json_data(d, model_type=c)
    yield "file", lambda: f.check_json_file(io.StringIO(t), model_type=c)
    if c == "Environment":
        yield "default", lambda: f.check_json_data(d)
        yield "package", lambda: f.check_aasx_data(zipfile.ZipFile(io.BytesIO(package("/aasx/e.json", t.encode()))))


def replay(case):
    t = case["t"]
    known = False
    for way, fn in ways(case):
        st, obs = guarded(lambda: observe(fn()))
        if st == "ok" and obs["ok"] == t["ok"]:
            continue
        if t["dev"] and listed(t["dev"]) and (t["kraise"] if st == "raised" else st == "ok" and not t["kraise"] and obs["ok"] == t["kok"]):
            known = True
            continue
        what = ("accepted" if obs["ok"] else f"rejected: {str(obs['f'])[:300]}") if st == "ok" else f"{st}: {obs}"
        return f"template document ({way}) checked as {case['c']} should be {'accepted' if t['ok'] else 'rejected'} but is {what}"
    return KNOWN if known else None


def kind(case):
    t = case["t"]
    return "known" if t["dev"] else "metamodel_errors" if not t["clean"] else "accepted" if t["ok"] else "rejected"


def line_of(line):
    case = parse_line(line)
    if not case["t"]["same"]:
        return None, "skipped"
    return replay(case), kind(case)


def run(rep):
    lines = rep.tlc("TemplateGen", parse=False).lines + rep.tlc("TemplateMix", parse=False).lines
    for line, (m, k) in zip(lines, pmap(line_of, lines)):
        rep.count(f"docs_{k}")
        if m == KNOWN:
            rep.count("known_deviation")
        elif m:
            rep.violation(m, parse_line(line))
    rep.validated += len(lines)
    rep.sample(dec_node(parse_line(lines[len(lines) // 2])["d"]))
    if min(rep.extra.get(k, 0) for k in ("docs_accepted", "docs_rejected", "docs_known")) < 50:
        raise MachineryError(f"too few documents: {rep.extra}")
    # the same in XML
    cases = [c for c in map(parse_line, lines[:: 1 if rep.thorough else 6]) if c["t"]["same"]]
    recs = [{"c": c["c"], "d": c["d"], "i": i} for i, c in enumerate(cases)]
    xs = []
    for r, v in judge_traces(rep, "XmlDocs", recs, lambda r: len(json.dumps(r["d"]))):
        if v["c"]:
            xs.append(dict(v, t=cases[r["i"]]["t"]))
    for v, m in zip(xs, pmap(replay, xs)):
        rep.count("xml_documents")
        if m == KNOWN:
            rep.count("known_deviation")
        elif m:
            rep.violation(m, v)
    rep.validated += len(xs)
