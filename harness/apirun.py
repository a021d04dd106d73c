"""Random whole runs, judged by ApiTrace (C18, C19, C20)"""
import random

from apiplan import *

ALL = ["SubmodelElementCollection", "SubmodelElementList", "Entity", "BasicEventElement", "Capability", "Operation", "Property",
       "MultiLanguageProperty", "Range", "ReferenceElement", "RelationshipElement", "AnnotatedRelationshipElement", "Blob", "File"]
PROFILES = [f"{i}ServiceSpecification/SSP-002" for i in
            ("AssetAdministrationShellRepository", "SubmodelRepository", "AssetAdministrationShell", "Submodel")]
NEG = ["s500", "s503", "s599", "s400f", "s400o", "s404e", "s499e", "s400p", "s400html", "s400none", "s400scalar", "s400list", "s400extra", "s400type", "s400kind",
       "s201", "s204", "s302", "s304", "s200e", "html"]
POS = ["s500", "s503", "s599", "s400f", "s404e", "s400html", "s400scalar", "s201", "s204", "s302", "s304", "s200e", "html", "scalar", "null", "wrong", "extra"]


def ways(u):
    """Ways to answer a request (as HasVariant in Api.tla)"""
    k = kind_of(u)
    if k == "refuse":
        return NEG
    if k in (None, "root"):
        return []
    if k in ("any", "bytes"):
        return ["s500", "s404e"]
    out = list(POS)
    k = {"smrefs": "refs", "smreference": "reference"}.get(k, k.split(":")[0])
    one = "limit=1" in u
    if k not in ("environment", "strings"):
        out.append("missing")
    if k in ("shells", "refs", "submodels", "elements", "shell", "reference", "assetinfo", "submodel", "element", "environment"):
        out.append("constraint")
    if k in LISTS and (one or k != "elements"):
        out.append("two")
    if k == "strings" or (k in LISTS and not one and not u.endswith("/submodel-elements")):
        out.append("empty")
    if k in ("shell", "reference", "submodel", "shells", "description", "environment") and not one and u != "/":
        out.append("other")
    if k == "shells" and not one and "idShort=" not in u:
        out += ["noids", "nogid", "nosms"]
    if k == "elements" and not u.endswith("/submodel-elements"):
        out.append("noval")
    return out


def record(seed):
    rnd = random.Random(seed)
    pr = rnd.randrange(4)
    types = rnd.sample(ALL, rnd.choice([1, 2, 4, 8, 14]))
    w = {"cursor": rnd.random() < 0.7, "types": types}
    rate = rnd.choice([0, 0.01, 0.05, 0.2, 0.6, 1])
    lost = rnd.random() < 0.15
    flt = rnd.choice([None, None, "", "Get*", "*-*", "~*ByPath*", "GetAll*~*-Path", "*ById*:GetDescription", "*Metadata:*Path", "G*~*Submodel*", "~"])

    def choose(n, u):
        if n == 0:
            return "good"
        if lost and rnd.random() < 0.003:
            return rnd.choice(["drop", "timeout"])
        c = ways(u)
        return rnd.choice(c) if c and rnd.random() < rate else "good"

    st, r, log, sent = run_suite(w, PROFILES[pr], choose, flt=flt)
    rec = record_run(st, r, log)
    x = {"pr": pr + 1, "w": w, "has": flt is not None, "f": [ord(c) for c in flt or ""], "st": rec["st"]}
    if st == "ok":
        del rec["reqs"]
    for o in rec.get("ops", []):
        o.pop("x", None)
    rec.pop("other", None)
    x.update(rec)
    return x


def random_runs(rep, prop, n):
    recs = pmap(record, [f"{rep.seed}/api/{i}" for i in range(n)], chunk=2)
    for rec, v in judge_traces(rep, "ApiTrace", recs, lambda r: len(r.get("ops", []))):
        rep.count("random_runs")
        rep.count("random_requests", sum(len(t["rs"]) for o in rec.get("ops", []) for k in ("setup", "neg", "pos") for t in o[k]))
        for b in v["bad"] or []:
            what = b["w"]
            if what == "no result" or what == "unguarded-fault":
                what += f": {rec['st']} {rec.get('what')}"
            if b["p"] == prop:
                rep.violation(f"random run of {PROFILES[rec['pr'] - 1]}: {what}", {k: v for k, v in rec.items() if k != "ops"})
            else:
                rep.count(f"other_{b['p']}")
