import random

from common import *

ASSUMPTIONS = ["bracket expressions with adjacent or trailing-range dashes and with [ \\ ^ & | inside are left open"]


def text(cps):
    return "".join(chr(c) for c in cps)


def observe_filter(f, names):
    pkg = load()

    def go():
        try:
            flt = pkg["config"].TestCaseFilter(f)
        except pkg["exception"].InvalidFilterException:
            return None
        return [flt.selects(n) for n in names]

    return guarded(go)


NAMES = []


def replay(case):
    f = text(case["f"])
    st, obs = observe_filter(f, NAMES)
    if st != "ok":
        return f"{st} on filter {f!r}: {obs}"
    if (obs is not None) != case["ok"]:
        return f"filter {f!r} is {'accepted' if case['ok'] is False else 'refused'}"
    for n, e, o in zip(NAMES, case["s"] or [], obs or []):
        if e != "any" and (e == "yes") is not o:
            return f"filter {f!r} selects {n!r}: {o}, expected {e}"
    return None


def operations():
    load()
    from aas_test_engines.test_cases.v3_0 import api

    return sorted({cls.operation for suite in api.available_suites.values() for _, cls in suite})


def random_filters(rep, n):
    rnd = random.Random(f"{rep.seed}/filter")
    ops = operations()

    def pattern():
        o = rnd.choice(ops)
        k = rnd.randrange(9)
        if k == 0:
            return o
        if k == 1:
            return o[: rnd.randrange(len(o))] + "*"
        if k == 2:
            return "*" + o[rnd.randrange(len(o)):]
        if k == 3:
            i = rnd.randrange(len(o))
            return o[:i] + "?" + o[i + 1:]
        if k == 4:
            i = rnd.randrange(len(o))
            return o[:i] + rnd.choice(["[a-z]", "[A-Z]", "[!a-z]", f"[{o[i]}]", f"[!{o[i]}]", "[]]", "["]) + o[i + 1:]
        if k == 5:
            i, j = sorted((rnd.randrange(len(o)), rnd.randrange(len(o))))
            return "*" + o[i:j] + "*"
        if k == 6:
            return rnd.choice([o.lower(), o.upper(), o + " ", " " + o, o[:-1], o + "x"])
        if k == 7:
            return rnd.choice(["", " ", "\t", "*", "?*", "**", ".*", "(", "\\", "+", "$", "^", "a|b", "\u00e9*", "\u3000"])
        return "".join(rnd.choice("GetAlShPu*?[]!-:~ .\\") for _ in range(rnd.randrange(12)))

    out = []
    for _ in range(n):
        inc = ":".join(pattern() for _ in range(rnd.randrange(4)))
        exc = ":".join(pattern() for _ in range(rnd.randrange(4)))
        f = rnd.choice([inc, inc + "~" + exc, "~" + exc, inc + "~", inc + "~" + exc, inc + "~" + exc + "~"])
        names = rnd.sample(ops, min(len(ops), 12)) + [rnd.choice(ops) + rnd.choice(["x", "\n", " ", "-Extra"])]
        out.append((f, names))
    return out


def record(arg):
    f, names = arg
    st, obs = observe_filter(f, names)
    if st != "ok":
        return st, f"{st} on filter {f!r}: {obs}"
    return "ok", {"f": [ord(c) for c in f], "n": [[ord(c) for c in n] for n in names], "ok": obs is not None, "s": obs or []}


def run(rep):
    r = rep.tlc("FilterGen", parse=False)
    first = [c for c in map(parse_line, r.by_part[0]) if c["f"] == []]
    NAMES[:] = [text(n) for n in first[0]["n"]]
    replay_lines(rep, r.lines, replay)
    cases = random_filters(rep, 20000 if rep.thorough else 3000)
    recs = []
    for (f, names), (st, x) in zip(cases, pmap(record, cases)):
        if st == "ok":
            recs.append(x)
        else:
            rep.violation(x, {"filter": f, "names": names})
    for rec, v in judge_traces(rep, "FilterTrace", recs, lambda r: len(r["f"])):
        for i in v["wrong"] or []:
            f = text(rec["f"])
            if i == 0:
                rep.violation(f"filter {f!r} was {'accepted' if rec['ok'] else 'refused'}", {"f": f})
            else:
                rep.violation(f"filter {f!r} selects {text(rec['n'][i - 1])!r}: {rec['s'][i - 1]}", {"f": f, "n": text(rec["n"][i - 1])})
