from rnd import *

ASSUMPTIONS = ["documents nested more than some 120 levels deep are not compared (see the known finding deep-nesting)"]


def tower(n, leaf):
    d = leaf
    for _ in range(n):
        d = {"modelType": "SubmodelElementCollection", "idShort": "c", "value": [d]}
    return {"modelType": "Submodel", "id": "x", "submodelElements": [d]}


def run(rep):
    seed = ("-seed", f"{rep.seed}10{{part}}")
    replay_all(rep, rep.tlc("Wrap", parse=False, args=seed).lines)
    replay_all(rep, rep.tlc("WrapWide", parse=False, args=seed).lines)
    # many violations at once, everywhere
    random_stage(rep, 800, "many-structural", bad=0.08, loose=0.1, depth=5)
    random_stage(rep, 800, "many-constraints", loose=0.6, depth=5)
    st, r = judge_json(tower(900, {"modelType": "Capability", "idShort": "c"}), "Submodel")
    if st != "ok":
        rep.violation(f"{st} on a tower of 900 collections: {r}", {"tower": 900})
    elif not r["ok"]:
        rep.violation("deep-nesting: a valid tower of 900 collections is rejected", {"tower": 900})
