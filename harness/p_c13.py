import contextlib
import io
import random
from html.parser import HTMLParser

from common import *

ASSUMPTIONS = [
    "a result is complete before it is appended (bottom-up construction), as everywhere in the code",
    "indentation, colour codes and CSS classes are learned from one-node and chain results and must be distinct",
]
DEPTH = 40


def build(ops, msg):
    res = load()["result"]
    stack, n = [], 0
    for o in ops:
        if o >= 0:
            n += 1
            stack.append(res.AasTestResult(msg(n), level_of(o)) if o or n % 2 else res.AasTestResult(msg(n)))
        else:
            c = stack.pop()
            stack[-1].append(c)
    return stack[0]


class Dom(HTMLParser):
    """(class, depth, text directly inside) of every element, in document order"""

    VOID = {"br", "img", "meta", "link", "input", "hr", "area", "base", "col", "embed", "source", "wbr"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.open, self.all = [], []

    def handle_starttag(self, tag, attrs):
        e = [dict(attrs).get("class") or "", len(self.open), [], tag]
        self.all.append(e)
        if tag not in self.VOID:
            self.open.append(e)

    def handle_startendtag(self, tag, attrs):
        self.all.append([dict(attrs).get("class") or "", len(self.open), [], tag])

    def handle_endtag(self, tag):
        while self.open:
            if self.open.pop()[3] == tag:
                return

    def handle_data(self, data):
        if self.open:
            self.open[-1][2].append(data)


def dom(s):
    p = Dom()
    p.feed(s)
    p.close()
    return p.all


# What the renderings look like is learned; that severities and depths can be told apart is required
LOOK = {}


def learn():
    if LOOK:
        return None
    res = load()["result"]
    probe = "probeprobe"
    pre, cls, base, num = {}, {}, set(), {}
    for l in range(4):
        r = res.AasTestResult(probe, level_of(l))
        lines = list(r.to_lines())
        if len(lines) != 1 or lines[0].count(probe) != 1:
            return "text rendering of a single result"
        a, _, b = lines[0].partition(probe)
        pre[(a, b)] = l
        els = [e for e in dom(r.to_html()) if "".join(e[2]).strip() == probe]
        if len(els) != 1:
            return "HTML rendering of a single result"
        cls[els[0][0]] = l
        base.add(els[0][1])
        num[r.to_dict()["l"]] = l
    if len(pre) != 4:
        return "severities cannot be told apart in the text rendering"
    if len(num) != 4:
        return "severities cannot be told apart in the JSON rendering"
    if len(cls) != 4:
        return "severities cannot be told apart in the HTML rendering"
    if len(base) != 1:
        return "HTML nesting depends on the severity"
    # a chain tells the indentation
    r = None
    for d in range(DEPTH, -1, -1):
        n = res.AasTestResult(f"{probe}{d}x")
        if r is not None:
            n.append(r)
        r = n
    (a0, b0), = [k for k, v in pre.items() if v == 0]
    ind = {}
    lines = list(r.to_lines())
    if len(lines) != DEPTH + 1:
        return "text rendering of a chain"
    for d, line in enumerate(lines):
        tail = f"{a0}{probe}{d}x{b0}"
        if not line.endswith(tail):
            return "text rendering of a chain"
        ind[line[: -len(tail)]] = d
    if len(ind) != DEPTH + 1:
        return "depths cannot be told apart in the text rendering"
    deep = {}
    els = [e for e in dom(r.to_html()) if "".join(e[2]).strip().startswith(probe)]
    if len(els) != DEPTH + 1:
        return "HTML rendering of a chain"
    for d, e in enumerate(els):
        if "".join(e[2]).strip() != f"{probe}{d}x":
            return "HTML rendering of a chain"
        deep[e[1]] = d
    if len(deep) != DEPTH + 1:
        return "depths cannot be told apart in the HTML rendering"
    LOOK.update(pre=pre, num=num, cls=cls, ind=ind, deep=deep)
    return None


def printed(r):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r.dump()
    return out.getvalue()


def text_view(r, ids):
    """[[id, depth, severity]] as told by the text rendering; ids: message -> ids in order of use"""
    use = {m: list(i) for m, i in ids.items()}
    out = []
    by_len = sorted(LOOK["ind"], key=lambda s: -len(s))
    for line in r.to_lines():
        hit = None
        for ind in by_len:
            if not line.startswith(ind):
                continue
            rest = line[len(ind):]
            for (a, b), l in LOOK["pre"].items():
                if rest.startswith(a) and rest.endswith(b) and len(rest) >= len(a) + len(b):
                    m = rest[len(a): len(rest) - len(b)]
                    if use.get(m):
                        hit = [use[m].pop(0), LOOK["ind"][ind], l]
                        break
            if hit:
                break
        out.append(hit or [-1, 0, 0])
    return out


def html_view(r, ids):
    use = {m: list(i) for m, i in ids.items()}
    out = []
    for c, d, t, tag in dom(r.to_html()):
        if c in LOOK["cls"] and tag not in ("style", "script"):
            m = "".join(t)
            out.append([use[m].pop(0) if use.get(m) else -1, LOOK["deep"].get(d, -1), LOOK["cls"][c]])
    return out


def dict_view(d, ids):
    use = {m: list(i) for m, i in ids.items()}
    out = []

    def walk(x, depth):
        out.append([use[x["m"]].pop(0) if use.get(x["m"]) else -1, depth, LOOK["num"].get(x["l"], -1)])
        for i in x["s"]:
            walk(i, depth + 1)

    walk(d, 0)
    return out


def tree_view(r, ids):
    use = {m: list(i) for m, i in ids.items()}
    out = []

    def walk(x, depth):
        out.append([use[x.message].pop(0) if use.get(x.message) else -1, depth, sev_of(x.level)])
        for i in x.sub_results:
            walk(i, depth + 1)

    walk(r, 0)
    return out


def views(r, ids):
    res = load()["result"]
    d = r.to_dict()
    back = res.AasTestResult.from_json(json.loads(json.dumps(d)))
    v = {
        "tree": tree_view(r, ids),
        "text": text_view(r, ids),
        "html": html_view(r, ids),
        "dict": dict_view(d, ids),
        "read back": tree_view(back, ids),
    }
    if back.to_dict() != d or json.loads(json.dumps(d)) != d:
        v["read back"] = []
    if back.ok() != r.ok():
        v["read back"] = []
    if printed(r) != "".join(i + "\n" for i in r.to_lines()):
        v["text"] = []
    return v


MESSAGES = [
    lambda n: f"m{n}",
    lambda n: f"<b>{n}</b> & \"q\" 'a' </div><script>",
    lambda n: ["", " ", "x\ny", "\u00e4\u4e2d\U0001f600", "a  b", "\t", "&lt;", "<!-- CONTENT -->", "\\n", "%s {0}", "\033[91m"][n % 11] + f"#{n}",
    lambda n: "same",
    lambda n: ("long " * 60)[: [40, 79, 80, 81, 100, 119, 120, 121, 127, 128, 199, 200, 201, 254, 255, 256, 257][n % 17]] + f"#{n}",
    lambda n: ["x" * 1000, "y" * 5000, "a b\n" * 300, "<" * 500, "\U0001f600" * 300][n % 5] + f"#{n}",
    lambda n: ["\r\n", "\x00", "\x1b[0m", "\u2028", "\ufeff", "\\1 \\g<0>", "</div>", "-->", "]]>", "\x7f", "\x85", "&#60;", "{{x}}", "$x", "\a"][n % 15] + f"#{n}" + ["", "\n", " ", "\r"][n % 4],
    lambda n: "" if n % 2 else " ",
]


def ids_of(ops, msg):
    # in preorder of ids as they occur in the tree: duplicates are resolved by order of appearance
    order = []
    stack, n = [], 0
    for o in ops:
        if o >= 0:
            n += 1
            stack.append([n])
        else:
            c = stack.pop()
            stack[-1] += c
    for i in stack[0]:
        order.append(i)
    d = {}
    for i in order:
        d.setdefault(msg(i), []).append(i)
    return d


def replay(case):
    bad = learn()
    if bad:
        return bad
    ops = case["ops"]
    exp = [[i["id"], i["d"], i["l"]] for i in case["lines"]]
    for k, msg in enumerate(MESSAGES):
        st, v = guarded(lambda: (lambda r: (r.ok(), views(r, ids_of(ops, msg))))(build(ops, msg)))
        if st != "ok":
            return f"{st}: {v} (message set {k})"
        if v[0] != case["ok"]:
            return f"ok() is {v[0]} (message set {k})"
        for name, got in v[1].items():
            if got != exp:
                return f"{name} shows {got}, expected {exp} (message set {k})"
    return None


def random_ops(rnd, n):
    ops, depth, left = [], 0, n
    while left or depth > 1:
        if left and (depth < 2 or (rnd.random() < 0.55 and depth < DEPTH)):
            ops.append(rnd.choice([0, 0, 0, 1, 1, 2, 3]))
            depth += 1
            left -= 1
        else:
            ops.append(-1)
            depth -= 1
    return ops


def record(arg):
    ops, seed = arg
    bad = learn()
    if bad:
        return "look", bad
    rnd = random.Random(seed)
    table = {}

    def msg(n):
        if n not in table:
            table[n] = "".join(rnd.choice("ab<>&\"' \n\t;#{}\u00e9\u20ac!-/") for _ in range(rnd.choice([rnd.randrange(12), rnd.randrange(12), rnd.randrange(150), rnd.randrange(600)])))
        return table[n]

    st, v = guarded(lambda: (lambda r: (r.ok(), views(r, ids_of(ops, msg))))(build(ops, msg)))
    if st != "ok":
        return st, v
    return "ok", {"ops": ops, "ok": v[0], "views": {k: [{"id": a, "d": b, "l": c} for a, b, c in x] for k, x in v[1].items()}}


def run(rep):
    r = rep.tlc("ResTree", parse=False)
    replay_lines(rep, r.lines, replay)
    rnd = random.Random(f"{rep.seed}/trees")
    cases = [(random_ops(rnd, rnd.randrange(1, 40)), rnd.random()) for _ in range(5000 if rep.thorough else 600)]
    cases.append((random_ops(rnd, 300), 1))
    # wide nodes: the k-th of many children decides, or none
    for w in (10, 11, 20, 50, 51, 99, 100, 101, 256, 500):
        bad = rnd.randrange(w)
        for l in (0, 1, 2, 3):
            cases.append(([0] + [i for k in range(w) for i in (l if k == bad else 0, -1)], 2))
    recs = []
    for c, (st, x) in zip(cases, pmap(record, cases)):
        if st == "ok":
            recs.append(x)
        else:
            rep.violation(f"{st}: {x}", {"ops": c[0]})
    for rec, v in judge_traces(rep, "ResTreeTrace", recs, lambda r: len(r["ops"])):
        for w in v["wrong"] or []:
            rep.violation(f"renderings of a result tree: {w} deviates", rec)
