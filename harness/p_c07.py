from docs import *
from rnd import random_docs, classes, table
from xmlio import *

ASSUMPTIONS = [
    "documents which cannot be written in XML (wrong kinds of value, characters XML does not have, missing model types) are not compared",
    "names of list items which do not tell a class, and XML attributes, are not looked at",
    "1 and 0 as booleans are left open",
]


def ways(case):
    """How a document reaches the checker; all ways for a hash of the style, so that they alternate"""
    f = load()["file"]
    x, c, st = case["x"], case["c"], case["st"]
    yield "file", lambda: f.check_xml_file(io.BytesIO(encode(x, st)), model_type=c)
    if st in ("plain", "indented", "utf16"):
        yield "tree", lambda: f.check_xml_data(element(x), model_type=c)
    if st in ("prefixed", "comments", "cdata", "refs"):
        yield "text", lambda: f.check_xml_file(io.StringIO(write(x, st)), model_type=c)
    if c == "Environment" and st in ("plain", "declared"):
        yield "default", lambda: f.check_xml_file(io.BytesIO(encode(x, st)))


def replay(case):
    known = False
    for way, fn in ways(case):
        st, obs = guarded(lambda: observe(fn()))
        head = f"XML ({way}, {case['st']}) checked as {case['c']}"
        if case["bad"]:
            if st == "ok" and not obs["ok"]:
                continue
            if listed(case["dev"]) and (compare(case["k"], obs) is None if st == "ok" else "-xml-short-tag" in case["dev"]):
                known = True
                continue
            return f"{head}: deviation {case['kind']!r} " + (f"is accepted" if st == "ok" else f"{st}: {obs}")
        r = verdict_of(case, st, obs)
        if r == KNOWN:
            known = True
        elif r:
            return f"{head}: {r}"
    return KNOWN if known else None


def run(rep):
    rep.table = table(rep)
    r = rep.tlc("XmlGen", parse=False)
    replay_lines(rep, r.lines, replay)
    # random documents
    n = 10 if rep.thorough else 1
    docs = []
    for salt, kw, k in (("valid", {"loose": 0.02}, 600), ("loose", {"loose": 0.3}, 1000), ("bad", {"bad": 0.02, "loose": 0.1}, 1000)):
        docs += random_docs(rep, classes(rep.table), k * n, f"{rep.seed}/xml-{salt}", **kw)
    recs = [{"c": c, "d": enc_node(d)} for c, d in docs]
    cases = [v for _, v in judge_traces(rep, "XmlDocs", recs, lambda r: len(json.dumps(r["d"])))]
    cases = [v for v in cases if v["c"]]
    rep.count("random_documents", len(cases))
    for v, m in zip(cases, pmap(replay, cases)):
        if m == KNOWN:
            rep.count("known_deviation")
        elif m:
            rep.violation(m, v)
    rep.validated += len(cases)
