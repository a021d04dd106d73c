"""Document checks: replaying documents with the findings the specification demands"""
import io

from common import *


def judge_json(data, cls):
    pkg = load()
    st, r = guarded(lambda: observe(pkg["file"].check_json_data(data, model_type=cls)))
    return st, r


def judge_text(text, cls):
    """The same as a file, of text or of bytes"""
    pkg = load()
    f = io.StringIO(text) if len(text) % 2 else io.BytesIO(text.encode())
    return guarded(lambda: observe(pkg["file"].check_json_file(f, model_type=cls)))


def replay_doc(case):
    """case: {c, d, r} as emitted by the specification; None or a description of the mismatch"""
    data = dec_node(case["d"])
    text = json.dumps(data)
    st, obs = judge_json(data, case["c"])
    m = verdict_of(case, st, obs)
    if m and m != KNOWN:
        return m
    st, obs = judge_text(text, case["c"])
    n = verdict_of(case, st, obs)
    return f"as file: {n}" if n and n != KNOWN else m


def listed(devs):
    """Are all these deviations recorded?"""
    return all(i[1:] in known_keys() for i in devs or [])


def verdict_of(case, st, obs):
    """None: as demanded; KNOWN: as the code is known to deviate; otherwise a description"""
    k = case.get("k") if listed(case.get("dev")) else None
    if st != "ok":
        if st == "raised" and k and any(f["id"] == "RAISE" for f in k["f"] or []):
            return KNOWN
        return f"{st} on a document checked as {case['c']}: {obs}"
    m = compare(case["r"], obs)
    if m and k and not any(f["id"] == "RAISE" and f["m"] for f in k["f"] or []) and compare(k, obs) is None:
        return KNOWN
    return m and f"document checked as {case['c']}: {m}"


def _replay_line(arg):
    fn, line = arg
    case = parse_line(line)
    return fn(case), case["r"]["phase"], bool(case["r"]["f"])


def replay_all(rep, lines, fn=replay_doc):
    """Replays emitted lines (unparsed); counts them by phase"""
    res = pmap(_replay_line, [(fn, i) for i in lines])
    for line, (r, phase, bad) in zip(lines, res):
        rep.count(f"docs_{phase}_{'findings' if bad else 'clean'}")
        if r == KNOWN:
            rep.count("docs_known_deviation")
        elif r:
            rep.violation(r, parse_line(line))
    rep.validated += len(lines)
    if lines:
        c = parse_line(lines[len(lines) // 2])
        rep.sample({"class": c["c"], "document": dec_node(c["d"]), "expected": c["r"]})


# --------------------------------------------------------------------------------------------------------------------
# Binding B: verdicts recorded from the code, judged by the specification


def _record(arg):
    c, d = arg
    st, o = judge_json(d, c)
    if st == "raised":
        return "ok", {"c": c, "d": enc_node(d), "ok": False, "raised": True, "what": enc_str(o), "o": []}
    if st != "ok":
        return st, o
    bad = [f for f in o["f"] if f[2] is None and f[0] >= 2]
    return "ok", {
        "c": c, "d": enc_node(d), "ok": o["ok"], "raised": False,
        "o": [{"p": enc_str(f[2]), "id": f[1], "l": f[0]} for f in o["f"] if f[2] is not None]
             + [{"p": "?", "id": f[1], "l": f[0]} for f in bad],
    }


def validate_docs(rep, docs, what="recorded verdict"):
    """Runs the code on (class, document) pairs and has the specification judge what it reported"""
    recs = []
    for (c, d), (st, r) in zip(docs, pmap(_record, docs)):
        if st != "ok":
            rep.violation(f"{st} on a document checked as {c}: {r}", {"c": c, "d": d})
        else:
            recs.append(r)
    if not recs:
        return
    for r, v in judge_traces(rep, "DocTrace", recs, lambda r: len(json.dumps(r["d"]))):
        rep.count(f"traced_{v['phase']}_{'findings' if v['n'] else 'clean'}")
        if v["known"] and listed(v["dev"]):
            rep.count("traced_known_deviation")
        elif v["clause"]:
            raised = " " + r["what"] if r["raised"] else ""
            rep.violation(
                f"{what} of a document checked as {r['c']}: {v['clause']}{raised}: missing {v['missing']}, extra {v['extra']}",
                {"c": r["c"], "d": r["d"], "observed": r["o"], "verdict": v},
            )
