"""Replaying the plans of ApiPlan.tla: one operation, one request answered otherwise (C18, C19, C20)"""
from common import *
from server import *

_base = {}
BARE = ("noids", "nogid", "nosms", "noval")


def loose(o, us):
    """Nothing is claimed about the parameters of these tests (Api!Loose)"""
    if o == "GetAllSubmodelElements" and us:
        if re.search(r"/submodel-elements\?extent=(withBlobValue&level=(core|deep)|withoutBlobValue&level=deep)$", us[0]):
            return ["*"]
    return us


def run_one(b, choose):
    st, r, log, sent = run_suite(b["world"], b["profile"], choose, flt=b["o"])
    return record_run(st, r, log)


def bag(tests):
    return sorted(json.dumps(t) for t in tests)


def check_base(b):
    """(description of a mismatch per property, recorded run) of the fault-free run"""
    out = {}
    rec = run_one(b, lambda n, u: "good")
    _fill(b)
    if rec["st"] != "ok":
        return {"C20": f"{rec['st']} {rec['what']}"}, None
    if [o["o"] for o in rec["ops"]] != [b["o"]]:
        return {"C17": f"operations reported: {[o['o'] for o in rec['ops']]}"}, None
    op = rec["ops"][0]
    urls = lambda t: [i["u"] for i in t["rs"]]
    if len(op["setup"]) != 1 or urls(op["setup"][0]) != b["setup"] or op["setup"][0]["l"] > 0:
        out["C20"] = f"setting up: {op['setup']}, expected {b['setup']}"
    neg = [urls(t) for t in op["neg"]]
    if bag(neg) != bag([[u] for u in b["neg"]]):
        out["C18"] = f"negative tests sent {neg}, expected {b['neg']}"
    elif any(t["l"] >= 2 for t in op["neg"]):
        out["C18"] = f"negative test failed although the server refused: {op['neg']}"
    pos = [loose(b["o"], urls(t)) for t in op["pos"]]
    want = [loose(b["o"], t["us"]) for t in b["pos"]]
    wantd = [loose(b["o"], t["dev"] or t["us"]) for t in b["pos"]]
    if bag(pos) == bag(want):
        pass
    elif bag(pos) == bag(wantd) and "cursor-unused" in known_keys():
        out["dev"] = True
    else:
        out["C19"] = f"positive tests sent {pos}, expected {want}"
    lv = sorted((json.dumps(loose(b["o"], urls(t))), t["l"]) for t in op["pos"])
    we = sorted((json.dumps(loose(b["o"], (t["dev"] or t["us"]) if out.get("dev") else t["us"])), t["l"]) for t in b["pos"])
    if "C19" not in out and lv != we:
        out["C19"] = f"levels of positive tests {lv}, expected {we}"
    t = tally(rec)
    if t:
        out["C20"] = t
    return out, rec


def _fill(b):
    for k in ("setup", "neg", "pos"):
        b[k] = b[k] or []
    for t in b["pos"]:
        t["us"], t["dev"] = t["us"] or [], t["dev"] or []
    b["world"]["types"] = b["world"]["types"] or []


def tally(rec):
    """The tally and the summary against the levels of the tests"""
    neg = [t["l"] for o in rec["ops"] for t in o["neg"]]
    pos = [t["l"] for o in rec["ops"] for t in o["pos"]]
    want = [sum(i < 2 for i in neg), sum(i >= 2 for i in neg), sum(i < 2 for i in pos), sum(i >= 2 for i in pos)]
    if rec["mat"] != want:
        return f"tally {rec['mat']} but the tests say {want}"
    if rec["summary"] != [[want[0], len(neg)], [want[2], len(pos)]]:
        return f"summary {rec['summary']} but the tests say {want}"
    worst = max([o["l"] for o in rec["ops"]] + [rec["reach"]["l"] if rec["reach"] else 0])
    if rec["l"] != worst or rec["ok"] != (worst < 2):
        return f"overall level {rec['l']}, ok={rec['ok']}, but the worst operation has {worst}"
    for o in rec["ops"]:
        w = max([t["l"] for t in o["setup"] + o["neg"] + o["pos"]] + [0])
        if o["l"] != w:
            return f"{o['o']} has level {o['l']} but its worst test {w}"
    if rec["left"]:
        return f"{rec['left']} requests outside the tests"
    return None


def locate(b, plan, rec):
    """Number of the request the plan means, and the test it belongs to; None if nothing is claimed about it"""
    op = rec["ops"][0]
    n = 1
    if plan["at"] == "setup":
        return n + plan["i"] - 1, ("setup", 0)
    n += len(op["setup"][0]["rs"])
    for i, t in enumerate(op["neg"]):
        if plan["at"] == "neg" and [x["u"] for x in t["rs"]] == [b["neg"][plan["i"] - 1]]:
            return n, ("neg", i)
        n += len(t["rs"])
    if plan["at"] == "neg":
        return None
    want = b["pos"][plan["i"] - 1]
    # the deviating test comes after the one it is mistaken for
    last = None
    for i, t in enumerate(op["pos"]):
        us = [x["u"] for x in t["rs"]]
        if us == want["us"]:
            return n + plan["r"] - 1, ("pos", i)
        if want["dev"] and us == want["dev"]:
            last = n + plan["r"] - 1, ("pos", i)
        n += len(t["rs"])
    return last


def same(a, b, but):
    """Do two runs agree (levels, requests) but in one test?"""
    x, y = a["ops"][0], b["ops"][0]
    for k in ("setup", "neg", "pos"):
        if len(x[k]) != len(y[k]):
            return f"{len(x[k])} {k} tests instead of {len(y[k])}"
        for i, (s, t) in enumerate(zip(x[k], y[k])):
            if (k, i) != but and (s["l"], [r["u"] for r in s["rs"]]) != (t["l"], [r["u"] for r in t["rs"]]):
                return f"the {k} test {i} changed: {s['l']} {[r['u'] for r in s['rs']]}, otherwise {t['l']} {[r['u'] for r in t['rs']]}"
    return None


def check_plan(b, plan, rec):
    """{property: description}"""
    place = locate(b, plan, rec)
    if place is None:
        return {"skip": True}
    n, (k, i) = place
    got = run_one(b, lambda j, u: plan["c"] if j == n else "good")
    name = {"setup": "C20", "neg": "C18", "pos": "C19"}[k]
    where = f"{plan['profile'].split('/')[0]} {plan['o']} {k} test {i} request {n} answered {plan['c']}"
    if got["st"] != "ok":
        if plan["esc"] and got["st"] == "raised":
            key_ = "bare-entry" if plan["c"] in BARE else "unguarded-fault"
            return {"C20": f"{key_}: {where}: {got['what']}"}
        return {"C20": f"{where}: {got['st']}: {got['what']}"}
    op = got["ops"][0] if got["ops"] else None
    out = {}
    if op is None or op["o"] != plan["o"] or len(got["ops"]) != 1:
        return {"C20": f"{where}: operations reported: {[o['o'] for o in got['ops']]}"}
    t = tally(got)
    if t:
        out["C20"] = f"{where}: {t}"
    if k == "setup" and plan["l"] == 9:
        return out
    if k == "setup":
        if not op["setup"] or (op["setup"][0]["l"] != plan["l"] and not (plan["c"] == "empty" and plan["l"] == 2 and op["setup"][0]["l"] == 3)):
            out["C20"] = f"{where}: level {[s['l'] for s in op['setup']]}, expected {plan['l']}"
        elif plan["l"] >= 2:
            if op["ran"] or op["neg"] or op["pos"]:
                out["C20"] = f"{where}: tests were run although setting up failed"
        else:
            m = None if plan["c"] in ("two", "empty", "noval") else same(got, rec, ("setup", 0))
            if m:
                out["C20"] = f"{where}: {m}"
    else:
        m = same(got, rec, (k, i))
        if m:
            out["C20"] = f"{where}: {m}"
        else:
            lv = op[k][i]["l"]
            if k == "neg" and (lv < 2) != (plan["l"] < 2):
                out["C18"] = f"{where}: level {lv}, expected {plan['l']}"
            if k == "pos" and plan["l"] != 9 and lv != plan["l"]:
                out["C19"] = f"{where}: level {lv}, expected {plan['l']}"
            if got["ok"] != (max(lv, plan["all"] if plan["all"] != 9 else lv) < 2) and plan["l"] != 9:
                out.setdefault("C20", f"{where}: overall verdict ok={got['ok']}, expected level {plan['all']}")
    return out


def _group(arg):
    want, lines = arg
    """One base with its plans"""
    out = []
    plans = [parse_line(i) for i in lines]
    b = next(p for p in plans if p["kind"] == "base")
    m, rec = check_base(b)
    for k, v in m.items():
        if k != "dev" and v:
            out.append((k, f"{b['profile'].split('/')[0]} {b['o']}: {v}", b))
        elif k == "dev":
            out.append(("C19", f"cursor-unused: {b['o']}: the page after the first is requested without the cursor", b))
    n = skipped = 0
    if rec is not None:
        for p in plans:
            if p["kind"] == "plan" and p["at"] in want:
                n += 1
                for k, v in check_plan(b, p, rec).items():
                    if k == "skip":
                        skipped += 1
                    else:
                        out.append((k, v, p))
    return n, skipped, out


def replay_plans(rep, prop, want):
    run = rep.tlc("ApiPlan", parse=False)
    groups = {}
    for line in run.lines:
        p = parse_line(line)
        groups.setdefault((p["pr"], p["ei"], p["w"]), []).append(line)
    if sum('\\"base\\"' in i for i in run.lines) != len(groups):
        raise MachineryError("plans without base")
    skipped = 0
    for n, s, out in pmap(_group, [(want, g) for g in groups.values()], chunk=1):
        rep.validated += n + 1
        rep.count("plans", n)
        skipped += s
        for k, v, case in out:
            if k == prop:
                rep.violation(v, case)
            else:
                rep.count(f"other_{k}")
    rep.count("left_open", skipped)
    rep.count("operations", len(groups))
    rep.sample(parse_line(run.lines[len(run.lines) // 2]))
