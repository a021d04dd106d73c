from docs import *
from xmlio import *

ASSUMPTIONS = ["names of attributes in locations are compared regardless of case and underscores (id_short for idShort)"]


def plain(s):
    return s.replace("_", "").lower()


def resolves(doc, loc):
    """Does the location lead to a part of the document?"""
    for s in [i for i in loc.split("/") if i]:
        if isinstance(doc, list):
            if not re.fullmatch("0|[1-9][0-9]*", s) or int(s) >= len(doc):
                return False
            doc = doc[int(s)]
        elif isinstance(doc, dict):
            ks = [k for k in doc if plain(k) == plain(s)]
            if not ks:
                return False
            doc = doc[ks[0]]
        else:
            return False
    return True


def raw(result):
    return {m.rpartition(" @ ")[2].strip() for l, m in leaves(result) if l > 0 and " @ " in m}


def replay(case):
    f = load()["file"]
    c, d = case["c"], dec_node(case["d"])
    runs = [("JSON", lambda: f.check_json_data(d, model_type=c))]
    for x in case["x"] or []:
        runs.append((f"XML ({case['st']})", lambda: f.check_xml_file(io.BytesIO(encode(x, case["st"])), model_type=c)))
    for what, fn in runs:
        st, r = guarded(fn)
        if st == "ok":
            m = compare(case["r"], observe(r))
            if not m:
                locs = raw(r)
                lost = [i for i in locs if not resolves(d, i)]
                if lost:
                    m = f"the location {lost[0]} does not lead anywhere"
                elif len({norm_loc(i) for i in locs}) != len(locs):
                    m = f"one location is named in several ways: {sorted(locs)[:6]}"
        else:
            m = f"{st}: {r}"
        if m:
            return f"{what} document checked as {c}: {m}"
    return None


def run(rep):
    seed = ("-seed", f"{rep.seed}22{{part}}")
    for module, cfg in (("Wrap", "WrapX"), ("WrapWide", "WrapWideX")):
        lines = rep.tlc(module, cfg=cfg, parse=False, args=seed).lines
        replay_lines(rep, lines, replay)
