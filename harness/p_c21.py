import zlib
import http.server
import random
import sys
import threading
from urllib.parse import unquote_to_bytes

from apirun import *


def text(cps):
    return "".join(map(chr, cps or []))


def cps(s):
    return [ord(c) for c in s]


def value(p):
    k = p["k"]
    if k == "none":
        return None
    if k == "bool":
        return p["v"] == [1]
    return int(text(p["v"])) if k == "int" else text(p["v"])


ADDRESS = "http://h.example:81"


def send(q, method="get", body=None, address=ADDRESS):
    """Sends a request as described in Wire.tla"""
    pkg = load()
    http_ = pkg["http"]
    client = http_.HttpClient(
        host=address + text(q["base"]) + ("/" if q["slash"] else ""),
        remove_path_prefix=text(q["remove"]),
        additional_headers={text(h["n"]): text(h["v"]) for h in q["add"] or []},
    )
    for p in q["pre"] or []:
        client = client.descend(text(p))
    return client.send(http_.Request(
        path=text(q["path"]), method=method, body=body,
        query_parameters={text(p["n"]): value(p) for p in q["params"] or []},
        headers={text(h["n"]): text(h["v"]) for h in q["own"] or []},
    ))


def seen(sent):
    """(address, decoded path, raw query, headers) of what was sent"""
    m = re.fullmatch(r"(\w+://[^/?#]*)([^?#]*)(?:\?([^#]*))?(#.*)?", sent["url"])
    if not m or m.group(4):
        return None
    return m.group(1), unquote_to_bytes(m.group(2)).decode("utf-8", "replace"), m.group(3) or "", {k.lower(): v for k, v in sent["headers"].items()}


def as_text(v):
    return v.decode("latin-1") if isinstance(v, bytes) else v


METHODS = ["get", "post", "put", "delete", "patch", "GET", "Post", "head", "options"]
BODIES = [None, {"a": [1, None, True, "\u00e9"]}, [], None, False, {}, "", 0, None, "x", [{"b": {}}]]


def replay(case):
    pkg = load()
    if case["kind"] == "id":
        encode = pkg["data_types"].base64_urlsafe
        from aas_test_engines.test_cases.v3_0.interfaces.shared import Base64String

        s = text(case["s"])
        want = text(case["e"])
        st, got = guarded(encode, s)
        if st != "ok" or got != want:
            return f"identifier {s!r} is encoded as {got!r} ({st}), expected {want!r}"
        if all(c in "\t\n\r" or ord(c) >= 32 for c in s):
            st, got = guarded(lambda: f"{Base64String(s)}")
            if st != "ok" or got != want:
                return f"identifier {s!r} appears as {got!r} ({st}), expected {want!r}"
        return None
    q = case["q"]
    net = Net(lambda n, r: (200, "{}"))
    h = zlib.crc32(json.dumps(q, sort_keys=True).encode())
    method, body = METHODS[h % len(METHODS)], BODIES[h // 16 % len(BODIES)]
    with network(net):
        st, r = guarded(send, q, method, body)
    name = f"request {text(q['path'])!r} below {[text(p) for p in q['pre'] or []]} of base {text(q['base'])!r} without {text(q['remove'])!r}, " \
           f"parameters {[(text(p['n']), value(p)) for p in q['params'] or []]}"
    if st != "ok":
        return f"{name}: {st} {r}"
    if len(net.sent) != 1:
        return f"{name}: {len(net.sent)} requests"
    o = seen(net.sent[0])
    if o is None or o[0] != ADDRESS:
        return f"{name}: sent to {net.sent[0]['url']}"
    if not case["open"] and o[1] != text(case["path"]):
        return f"{name}: path {o[1]!r}, expected {text(case['path'])!r}"
    pairs = [[text(x) for x in p] for p in case["pairs"] or []]
    got = [list(p) for p in parse_qsl(o[2], keep_blank_values=True)]
    if got != pairs or ("&" in o[2] and len(o[2].split("&")) != len(pairs)):
        return f"{name}: query {o[2]!r}, expected {pairs}"
    for n, v in case["headers"] or []:
        if as_text(o[3].get(text(n).lower())) != text(v):
            return f"{name}: header {text(n)} is {o[3].get(text(n).lower())!r}, expected {text(v)!r}"
    if net.sent[0]["method"].lower() != method.lower():
        return f"{name}: method {net.sent[0]['method']}"
    b = net.sent[0]["body"]
    if (b is None) != (body is None) or (b is not None and json.loads(b) != body):
        return f"{name}: body {b!r}, expected {body!r}"
    return None


PACKAGE = os.path.join(REPO, "aas_test_engines") + os.sep


def tree(case):
    pkg = load()

    class Mine(pkg["http"].HttpClient):
        pass

    cls = Mine if len(case["ops"]) % 2 else pkg["http"].HttpClient
    mine, who = threading.get_ident(), []
    net = Net(lambda n, r: who.append(threading.get_ident()) or (200, "{}"))

    others = []

    def one(client, own, second=False):
        rq = pkg["http"].Request(path="/r", method="post", body={"n": [1]}, query_parameters={"a": True}) if second else pkg["http"].Request(path="/q")
        if own:
            rq.headers["X-X"] = "2"
        return client.send(rq)

    def both(first, second, own):
        """While the first one sends, the second one does, too, at every line of the client"""
        def line(frame, event, arg):
            if event == "line":
                t = threading.Thread(target=lambda: others.append(one(second, not own, True)), daemon=True)
                t.start()
                t.join(3)  # it may have to wait
                line.threads.append(t)
            return line

        def trace(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(PACKAGE) else None

        line.threads = []
        old = sys.gettrace()
        sys.settrace(trace)
        try:
            one(first, own)
        finally:
            sys.settrace(old)
        for t in line.threads:
            t.join(20)

    def go():
        clients = []
        for o in case["ops"]:
            if o["k"] == "new":
                clients.append(cls(host=ADDRESS, verify=True, additional_headers={"X-H": "1"}) if o["h"] else cls(ADDRESS, False))
            elif o["k"] == "descend":
                clients.append(clients[o["i"] - 1].descend(o["p"]))
            elif o["k"] == "send":
                one(clients[o["i"] - 1], o["h"])
            else:
                both(clients[o["i"] - 1], clients[int(o["p"]) - 1], o["h"])
        return clients

    with network(net):
        st, r = guarded(go)
    if st != "ok":
        return f"clients {case['ops']}: {st} {r}"
    if case["ops"][-1]["k"] == "both":
        # the one in between appears once, if all of them are alike
        extra = [s for s, w in zip(net.sent, who) if w != mine]
        if len(extra) != len(others) or not extra:
            return f"clients {case['ops']}: {len(extra)} requests in between, {len(others)} answers"
        alike = {(s["url"], s["method"], s["body"], bool(s["verify"]), str(sorted(s["headers"].items()))) for s in extra}
        if len(alike) > 1:
            return f"clients {case['ops']}: the requests in between differ: {sorted(a[0] for a in alike)}"
        if extra[0]["method"].upper() != "POST" or json.loads(extra[0]["body"] or "0") != {"n": [1]} or not extra[0]["url"].endswith("/r?a=true"):
            return f"clients {case['ops']}: the request in between is {extra[0]['method']} {extra[0]['url']} {extra[0]['body']}"
        own = [s for s, w in zip(net.sent, who) if w == mine]
        net.sent = own[:-1] + extra[:1] + own[-1:]
    got = []
    if any((s["method"].upper() != "GET" or s["body"] or "?" in s["url"]) for s, x in zip(net.sent, case["sent"]) if x["path"].endswith("/q")):
        return f"clients {case['ops']}: a plain request is no GET, or has a body"
    for s in net.sent:
        o = seen(s)
        got.append({"path": o[1], "x": o[3].get("x-x") == "2", "h": o[3].get("x-h") == "1"})
    if got != case["sent"]:
        return f"clients {case['ops']}: sent {got}, expected {case['sent']}"
    if any(bool(s["verify"]) != x["h"] for s, x in zip(net.sent, case["sent"])):
        return f"clients {case['ops']}: certificates are checked where they should not, or not where they should"
    if any(type(c) is not cls for c in r):
        return f"clients {case['ops']}: the class of the client is lost"
    return None


# --------------------------------------------------------------------------------------------------------------------
# Recorded requests, judged by WireTrace


def rand_text(rnd, n, extra=""):
    pool = [*map(chr, range(32, 127)), "\u00e9", "\u4e2d", "\U0001f600", "\t", "\n", *extra]
    return "".join(rnd.choice(pool) for _ in range(rnd.randrange(n)))


def seg(rnd):
    return "/" + "".join(rnd.choice("abcAZ09-_~$.@:!*'(),;=+%20") if rnd.random() < 0.3 else rnd.choice("abcxyz") for _ in range(rnd.randrange(1, 8))).replace("%", "p").strip(".") + "s"


def random_request(seed):
    rnd = random.Random(seed)
    pre = [cps("".join(seg(rnd) for _ in range(rnd.randrange(1, 3)))) for _ in range(rnd.randrange(3))]
    path = cps("".join(seg(rnd) for _ in range(rnd.randrange(4))))
    whole = [c for p in pre for c in p] + path
    r = rnd.random()
    if r < 0.3:
        remove = []
    elif r < 0.8 and whole:
        remove = whole[: rnd.randrange(1, len(whole) + 1)]
    else:
        remove = cps(seg(rnd))
    params, names = [], set()
    for _ in range(rnd.randrange(5)):
        n = rand_text(rnd, 6) or "n"
        if n in names:
            continue
        names.add(n)
        k = rnd.choice(["none", "bool", "int", "text", "text", "text"])
        v = {"none": [], "bool": [rnd.randrange(2)], "int": cps(str(rnd.randrange(-5, 10 ** 9))), "text": cps(rand_text(rnd, 20))}[k]
        params.append({"n": cps(n), "k": k, "v": v})
    hdr = lambda: [{"n": cps(n), "v": cps("".join(rnd.choice("abc 123;:=/") for _ in range(rnd.randrange(9))).strip())} for n in rnd.sample(["X-A", "x-b", "X-C", "Accept", "content-type"], rnd.randrange(4))]
    return {"base": cps("".join(seg(rnd) for _ in range(rnd.randrange(3)))), "slash": rnd.random() < 0.5, "remove": remove, "pre": pre, "path": path,
            "params": params, "add": hdr(), "own": hdr()}


def observed(net):
    o = seen(net.sent[0]) if net.sent else None
    if o is None or o[0] != ADDRESS:
        return {"path": [], "query": [], "headers": [], "count": 0}
    return {"path": cps(o[1]), "query": cps(o[2]), "headers": [{"n": cps(k), "v": cps(as_text(v))} for k, v in o[3].items()], "count": len(net.sent)}


def record(seed):
    rnd = random.Random(seed)
    encode = getattr(load()["data_types"], "base64_urlsafe", None)
    if rnd.random() < 0.3 and encode:
        s = rand_text(rnd, rnd.choice([5, 40, 300]), "\x00\x7f\u0080\uffff\U0010ffff")
        st, r = guarded(encode, s)
        return st, {"kind": "id", "q": {"s": cps(s)}, "o": {"e": cps(r)}}
    q = random_request(seed + "q")
    net = Net(lambda n, r: (200, "{}"))
    with network(net):
        st, r = guarded(send, q)
    if st != "ok":
        return st, {"kind": "req", "q": q, "what": r}
    return "ok", {"kind": "req", "q": q, "o": observed(net)}


# --------------------------------------------------------------------------------------------------------------------
# Whole runs with a configured client, and real requests over the loopback device


def run_requests(pr):
    """Every request of a run of a profile, with a configured client: the answers are those of a plain run, in order"""
    pkg = load()
    w = {"cursor": True, "types": ALL}
    profile = PROFILES[pr]
    st, r, log, plain = run_suite(w, profile, lambda n, u: "good")
    out = []
    for remove in ("", "/shells", "/submodels", "/aas", "/submodel", "/aas/submodels"):
        headers = {"X-Token": "a b:c", "x-2": ""}
        net = Net(lambda n, rq: respond(w, log[n]["u"], "good", PREFIX + profile) if n < len(log) else (500, ""))
        with network(net):
            st2, r2 = guarded(lambda: pkg["api"].execute_tests(
                pkg["http"].HttpClient(host=ADDRESS + "/base/", remove_path_prefix=remove, additional_headers=headers),
                pkg["config"].CheckApiConfig(suite=PREFIX + profile)), limit=120)
        if st != "ok" or st2 != "ok" or len(net.sent) != len(plain):
            return [("bad", f"{profile} without {remove!r}: {st} {st2} {len(net.sent)} requests instead of {len(plain)}")]
        for a, b in zip(plain, net.sent):
            path, query = split_url(a["url"])
            path = "" if path == "/" and a is plain[0] else path
            q = {"base": cps("/base"), "slash": True, "remove": cps(remove), "pre": [], "path": cps(unquote(path)),
                 "params": [{"n": cps(k), "k": "text", "v": cps(v)} for k, v in query],
                 "add": [{"n": cps(k), "v": cps(v)} for k, v in headers.items()], "own": []}
            n1 = Net(None)
            n1.sent = [b]
            out.append(("ok", {"kind": "req", "q": q, "o": observed(n1)}))
    return out


IDENTIFIERS = [
    "a", "ab", "abc", "abcd", "=", "a=", "==", "a+b/c?d", " lead", "trail ", " ", "a\tb", "a\n", "\u00ff\u00fe\u00fd", ">>>???", "\u07ff\u0800\uffef\U00010000\U0010ffff",
    "%2F%41", "A" * 2000, "\u00e9" * 1000, "a&b=c#d", "../..", "/", "0", "null", "{id}", "$metadata", "\"q\"", "\\", "urn:x:y?z+w", "YQ==", "e\u0301",
]
CURSORS = ["0", "a b", "%2F", "&x=y#", "\u00e9+", "false", "=", "c" * 500, " ", "../", "?"]


def ident_run(arg):
    """A run against a server which has other identifiers and cursors differs in these only"""
    import server

    k, pr = arg
    rnd = random.Random(k)
    w = {"cursor": True, "types": ALL}
    profile = PROFILES[pr]
    st0, r0, log0, sent0 = run_suite(w, profile, lambda n, u: "good")
    old = server.AAS, server.SM, server.ASSET, server.ID_SHORT, server.CURSOR
    ids = IDENTIFIERS[k % len(IDENTIFIERS)], rnd.choice(IDENTIFIERS), rnd.choice(IDENTIFIERS), rnd.choice(["a", "Z_9", "x" * 128, "True"]), CURSORS[k % len(CURSORS)]
    server.AAS, server.SM, server.ASSET, server.ID_SHORT, server.CURSOR = ids
    try:
        st, r, log, sent = run_suite(w, profile, lambda n, u: "good")
    finally:
        server.AAS, server.SM, server.ASSET, server.ID_SHORT, server.CURSOR = old
    where = f"{profile} with identifiers {[i[:40] for i in ids]}"
    if st0 != "ok" or st != "ok":
        return [("bad", f"{where}: {st} {r if st != 'ok' else ''}")]
    a, b = [x["u"] for x in log0], [x["u"] for x in log]
    if a != b:
        d = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return [("bad", f"{where}: request {d} is {b[d:d + 1]} ({sent[d]['url'][:200] if d < len(sent) else ''}), expected {a[d:d + 1]}")]
    if r[0].ok() != r0[0].ok():
        return [("bad", f"{where}: ok is {r[0].ok()}, otherwise {r0[0].ok()}")]
    out = []
    for x, y in zip(log, sent):
        for seg1, raw in zip(x["u"].partition("?")[0].split("/"), urlsplit(y["url"]).path.split("/")[-len(x["u"].partition("?")[0].split("/")):]):
            if seg1 in ("{aas}", "{sm}"):
                out.append((ids[seg1 == "{sm}"], raw))
    return [("ok", {"kind": "id", "q": {"s": cps(s)}, "o": {"e": cps(e)}}) for s, e in sorted(set(out))]


def loopback(rep, n):
    """Does the stand-in see what a server sees?"""
    got = []

    class Handler(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            got.append((self.path, {k.lower(): v for k, v in self.headers.items()}))
            self.send_response(200)
            self.send_header("Content-Length", "2")
            self.end_headers()
            self.wfile.write(b"{}")

        def log_message(self, *a):
            pass

    srv = http.server.HTTPServer(("127.0.0.1", 0), Handler)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    old = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
    recs = []
    try:
        for i in range(n):
            q = random_request(f"{rep.seed}/loop/{i}")
            got.clear()
            st, r = guarded(lambda: send(q, address=f"http://127.0.0.1:{srv.server_port}"))
            if st != "ok" or not got:
                rep.violation(f"real request: {st} {r}", q)
                continue
            path, _, query = got[0][0].partition("?")
            recs.append({"kind": "req", "q": q, "o": {"path": cps(unquote_to_bytes(path).decode("utf-8", "replace")), "query": cps(query),
                                                      "headers": [{"n": cps(k), "v": cps(v)} for k, v in got[0][1].items()], "count": len(got)}})
    finally:
        srv.shutdown()
        srv.server_close()
        os.environ.update(old)
    return recs


def run(rep):
    pkg = load()
    r = rep.tlc("WireGen", parse=False)
    replay_lines(rep, r.lines, replay)
    r = rep.tlc("WireTree", parse=False)
    replay_lines(rep, r.lines, tree)
    recs = []
    for st, x in pmap(record, [f"{rep.seed}/wire/{i}" for i in range(20000 if rep.thorough else 2500)]):
        if st == "ok":
            recs.append(x)
        else:
            rep.violation(f"request: {st} {x.get('what')}", x)
    for rs in pmap(run_requests, range(4), chunk=1):
        for st, x in rs:
            if st == "ok":
                recs.append(x)
            else:
                rep.violation(x, {})
    for rs in pmap(ident_run, [(k, pr) for k in range(len(IDENTIFIERS) * (8 if rep.thorough else 1)) for pr in range(4)], chunk=2):
        for st, x in rs:
            if st == "ok":
                recs.append(x)
                rep.count("identifiers")
            else:
                rep.violation(x, {})
    recs += loopback(rep, 100)
    for rec, v in judge_traces(rep, "WireTrace", recs, lambda r: len(json.dumps(r))):
        if v["bad"]:
            q = rec["q"]
            if rec["kind"] == "id":
                rep.violation(f"identifier {text(q['s'])!r} is encoded as {text(rec['o']['e'])!r}", rec)
            else:
                rep.violation(f"request: wrong {v['bad']}: path {text(q['path'])!r} prefixes {[text(p) for p in q['pre']]} remove {text(q['remove'])!r} base {text(q['base'])!r} "
                              f"params {[(text(p['n']), value(p)) for p in q['params']]}: sent {text(rec['o']['path'])!r} ? {text(rec['o']['query'])!r}", rec)
