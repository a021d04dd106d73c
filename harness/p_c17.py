from apirun import *

W = {"cursor": True, "types": ALL}
_good = {}


def calibrated(profile, flt):
    k = profile, flt
    if k not in _good:
        st, r, log, _ = run_suite(W, profile, lambda n, u: "good", flt=flt)
        _good[k] = record_run(st, r, log)
    return _good[k]


def choose_for(case, flt):
    """The way the server behaves"""
    if not case["at"]:
        return lambda n, u: case["reach"] if n == 0 else "good"
    rec = calibrated(PROFILES[case["pr"] - 1], flt)
    if rec["st"] != "ok" or len(rec["ops"]) < case["at"]:
        return None
    n = 1
    for op in rec["ops"][: case["at"] - 1]:
        n += sum(len(t["rs"]) for k in ("setup", "neg", "pos") for t in op[k])
    op = rec["ops"][case["at"] - 1]
    bad = set()
    for k in ("setup", "neg", "pos"):
        for t in op[k]:
            for _ in t["rs"]:
                # (setting up ends with the first failure)
                if k == case["m"] and not (k == "setup" and bad):
                    bad.add(n)
                n += 1
    return lambda n, u: "s500" if n in bad else "good"


def replay(case):
    flt = "".join(map(chr, case["f"] or [])) if case["has"] else None
    profile = PROFILES[case["pr"] - 1]
    for k in ("sel", "listed", "setups"):
        case[k] = case[k] or []
    name = f"{profile.split('/')[0]} filter {flt!r} dry={case['dry']} first answer {case['reach']}, trouble: {case['m']} of operation {case['at']}"
    choose = choose_for(case, flt)
    if choose is None:
        return f"{name}: no result without trouble"
    st, r, log, sent = run_suite(W, profile, choose, flt=flt, dry=case["dry"])
    rec = record_run(st, r, log)
    if st != "ok":
        return f"{name}: {st}: {r}"
    got = [o["o"] for o in rec["ops"]]
    if got != case["listed"]:
        return f"{name}: operations {got}, expected {case['listed']}"
    if len(sent) != case["sent"]:
        return f"{name}: {len(sent)} requests, expected {case['sent']}"
    if case["dry"] and sent:
        return f"{name}: a dry run sends requests"
    if rec["left"]:
        return f"{name}: {rec['left']} requests outside of the operations"
    if rec["other"]:
        return f"{name}: unexpected entries {rec['other']}"
    if case["certain"]:
        if rec["l"] != case["level"] or rec["ok"] != (case["level"] < 2):
            return f"{name}: level {rec['l']} ok={rec['ok']}, expected {case['level']}"
        if rec["mat"] != case["tally"]:
            return f"{name}: tally {rec['mat']}, expected {case['tally']}"
    return None


def names(case):
    pkg = load()
    net = Net(lambda n, r: respond(W, "", "drop", ""))

    def go():
        conf = pkg["config"].CheckApiConfig(suite=case["s"], version=None if case["v"] == "-" else case["v"], dry=True)
        try:
            result, _ = pkg["api"].execute_tests(pkg["http"].HttpClient(host=HOST), conf)
            return True
        except pkg["exception"].AasTestToolsException:
            return False

    with network(net):
        st, r = guarded(go)
    if st != "ok":
        return f"suite {case['s']!r} version {case['v']}: {st} {r}"
    if r is not case["runs"]:
        return f"suite {case['s']!r} version {case['v']} is {'run' if r else 'refused'}"
    if net.sent:
        return f"suite {case['s']!r}: requests sent"
    return None


def run(rep):
    pkg = load()
    r = rep.tlc("ApiRun", parse=False)
    if rep.thorough:
        rep.tlc("ApiRun", cfg="ApiRunLive.cfg", parse=False, env={"TIER": "quick"})
    replay_lines(rep, r.lines, replay)
    n = rep.tlc("ApiNames", parts=1, parse=False)
    replay_lines(rep, n.lines, names)
    # What the library says is available is what the specification lists
    sup = pkg["api"].supported_versions()
    if list(sup) != ["3.0"] or sorted(sup["3.0"]) != sorted(PREFIX + p for p in PROFILES) or pkg["api"].latest_version() != "3.0":
        rep.violation(f"supported versions: { {k: list(v) for k, v in sup.items()} }", {})
    random_runs(rep, "C17", 300 if rep.thorough else 40)
