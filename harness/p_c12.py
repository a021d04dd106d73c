import io
import queue
import random
import sys
import threading
import zipfile

from docs import *
from xmlio import STYLES, encode, element, ElementTree
from pack import package

ASSUMPTIONS = ["findings are compared as sets; the wording of messages and the order of findings are left open"]
POOL = {}


class Named(io.BytesIO):
    name = "document.json"


def shuffled(v, rnd):
    if isinstance(v, dict):
        ks = list(v)
        rnd.shuffle(ks)
        return {k: shuffled(v[k], rnd) for k in ks}
    return [shuffled(i, rnd) for i in v] if isinstance(v, list) else v


def morph(old, new):
    """Edits old in place, keeping as many of its objects as possible"""
    for k in [k for k in old if k not in new]:
        del old[k]
    for k, v in new.items():
        o = old.get(k)
        if isinstance(v, dict) and isinstance(o, dict):
            morph(o, v)
        elif isinstance(v, list) and isinstance(o, list):
            for i, x in enumerate(v):
                if i < len(o) and isinstance(x, dict) and isinstance(o[i], dict):
                    morph(o[i], x)
                elif i < len(o):
                    o[i] = x
                else:
                    o.append(x)
            del o[len(v):]
        else:
            old[k] = v


def xmorph(old, new):
    old.tag, old.text, old.tail = new.tag, new.text, new.tail
    for i, x in enumerate(list(new)):
        if i < len(old):
            xmorph(old[i], x)
        else:
            old.append(x)
    del old[len(new):]


def rewound(check, file, c, rnd):
    """The same file once or twice"""
    rs = [check(file, model_type=c)]
    if rnd.random() < 0.3:
        file.seek(0)
        rs.append(check(file, model_type=c))
    return rs


def step(e, form, kept, rnd):
    """(result, what was modified or None)"""
    f, c = load()["file"], e["c"]
    if form in ("data", "shuffled", "o1", "o2", "again"):
        d = dec_node(e["d"])
        if form == "shuffled":
            d = shuffled(d, rnd)
        if form in ("o1", "o2"):
            if form in kept:
                morph(kept[form], d)
                d = kept[form]
            kept[form] = d
        before = json.dumps(d)
        rs = [f.check_json_data(d, model_type=c)]
        if form == "again":
            kept.setdefault("all", []).append(d)
            rs.append(f.check_json_data(d, model_type=c))
        return rs, None if json.dumps(d) == before else "the given value was modified"
    if form in ("text", "bytes", "named"):
        t = json.dumps(dec_node(e["d"]), ensure_ascii=rnd.random() < 0.5, indent=rnd.choice([None, 1]))
        if form == "text":
            return rewound(f.check_json_file, io.StringIO(t), c, rnd), None
        if form == "bytes":
            return rewound(f.check_json_file, io.BytesIO(t.encode(rnd.choice(["utf-8", "utf-8-sig", "utf-16", "utf-32"]), "surrogatepass")), c, rnd), None
        b = kept.setdefault("named", Named())
        b.seek(0)
        b.truncate()
        b.write(t.encode("utf-8", "surrogatepass"))
        b.seek(0)
        return [f.check_json_file(b, model_type=c)], None
    if form == "pack":
        if e["x"] and rnd.random() < 0.5:
            data = package("/aasx/e.xml", encode(e["x"][0], rnd.choice(STYLES)))
        else:
            data = package("/aasx/e.json", json.dumps(dec_node(e["d"])).encode())
        b = io.BytesIO(data)
        if rnd.random() < 0.5:
            return [f.check_aasx_file(b) for _ in range(rnd.randrange(1, 3))], None if b.getvalue() == data else "the given file was modified"
        z = zipfile.ZipFile(b)
        return [f.check_aasx_data(z) for _ in range(rnd.randrange(1, 3))], None if b.getvalue() == data else "the given file was modified"
    x = e["x"][0]
    if form == "xml":
        return rewound(f.check_xml_file, io.BytesIO(encode(x, rnd.choice(STYLES))), c, rnd), None
    t = element(x) if rnd.random() < 0.5 else ElementTree.fromstring(encode(x, rnd.choice(STYLES)))
    if form == "o3":
        if "o3" in kept:
            xmorph(kept["o3"], t)
            t = kept["o3"]
        kept["o3"] = t
    before = ElementTree.tostring(t)
    return [f.check_xml_data(t, model_type=c)], None if ElementTree.tostring(t) == before else "the given tree was modified"


def history(k, hist, seed):
    """Runs a history; None or a description"""
    rnd = random.Random(seed)
    kept, past = {}, []
    for n, s in enumerate(hist):
        e = POOL[k, s["i"]]
        where = f"step {n + 1} of a history ({s['f']}, {e['c']})"
        st, r = guarded(lambda: step(e, s["f"], kept, rnd))
        if st != "ok":
            return f"{where}: {st}: {r}"
        for res in r[0]:
            o = observe(res)
            m = compare(e["r"], o) if e["ok"] or e["r"]["f"] else None if not o["ok"] else "accepted in spite of its template"
            if m:
                return f"{where}: {m}"
            past.append((n, res, o))
        if r[1]:
            return f"{where}: {r[1]}"
    for n, res, o in past:
        if observe(res) != o:
            return f"the result of step {n + 1} of a history has changed"
    return None


class Stoppable(threading.Thread):
    """A check which is stopped after some lines of the code under test"""

    def __init__(self, fn, point):
        super().__init__(daemon=True)
        self.fn, self.left = fn, point
        self.halted, self.go = threading.Event(), threading.Event()
        self.out = None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.halted.set()
                self.go.wait()
        return self.line if self.left > 0 else None

    def run(self):
        try:
            if self.left:
                sys.settrace(self.trace)
            try:
                r = self.fn()
            finally:
                sys.settrace(None)
            self.out = "ok", r
        except Exception as e:
            self.out = "raised", f"{type(e).__name__}: {str(e)[:200]}"
        finally:
            self.halted.set()


LENGTHS = {}  # lines of a check


def length(arg):
    k, i, form = arg
    t = Stoppable(lambda: step(POOL[k, i], form, {}, random.Random(1)), 10**9)
    t.start()
    t.join(60)
    return 10**9 - t.left


PACKAGE = os.path.join(REPO, "aas_test_engines") + os.sep


def overlap(k, rounds, seed):
    """Runs rounds of two checks which overlap; None or a description"""
    past = []
    for n, r in enumerate(rounds):
        value = dec_node(POOL[k, r["a"]["i"]]["d"])
        before = json.dumps(value)
        ts = []
        for x in "ab":
            c, e = r[x], POOL[k, r[x]["i"]]
            if r["same"]:
                fn = lambda e=e: ([load()["file"].check_json_data(value, model_type=e["c"])], None)
            else:
                fn = lambda e=e, c=c, x=x: step(e, c["f"], {}, random.Random(f"{seed}{n}{x}"))
            ts.append((Stoppable(fn, 0 if c["p"] < 0 else 1 + LENGTHS[k, c["i"], c["f"]] * c["p"] // 1000), e, c))
        (a, _, _), (b, _, _) = ts
        a.start()
        a.halted.wait(20)
        b.start()
        b.halted.wait(3)  # it may wait for the first one
        a.go.set()
        a.join(20)
        b.go.set()
        b.join(20)
        for t, e, c in ts:
            where = f"round {n + 1} of overlapping checks ({c['f']}, {e['c']}{', the same value' if r['same'] else ''})"
            if t.is_alive():
                return f"{where}: hang"
            if t.out[0] != "ok":
                return f"{where}: {t.out[0]}: {t.out[1]}"
            for res in t.out[1][0]:
                o = observe(res)
                m = compare(e["r"], o) if e["ok"] or e["r"]["f"] else None if not o["ok"] else "accepted in spite of its template"
                if m:
                    return f"{where}: {m}"
                past.append((n, res, o))
            if t.out[1][1]:
                return f"{where}: {t.out[1][1]}"
        if json.dumps(value) != before:
            return f"round {n + 1} of overlapping checks: the given value was modified"
    for n, res, o in past:
        if observe(res) != o:
            return f"a result of round {n + 1} of overlapping checks has changed"
    return None


class Other(threading.Thread):
    """Makes checks on demand"""

    def __init__(self):
        super().__init__(daemon=True)
        self.todo, self.answer = queue.SimpleQueue(), queue.SimpleQueue()

    def run(self):
        while True:
            fn = self.todo.get()
            try:
                out = "ok", fn()
            except Exception as e:
                out = "raised", f"{type(e).__name__}: {str(e)[:200]}"
            self.answer.put(out)


def verdict(e, out):
    if out[0] != "ok":
        return f"{out[0]}: {out[1]}"
    for res in out[1][0]:
        o = observe(res)
        m = compare(e["r"], o) if e["ok"] or e["r"]["f"] else None if not o["ok"] else "accepted in spite of its template"
        if m:
            return m
    return out[1][1]


def everywhere(k, job, seed):
    """A check which is stopped after each line (of some), while others are made; None or a description"""
    e = POOL[k, job["a"]["i"]]
    others = [(POOL[k, b["i"]], b["f"]) for b in job["b"]]
    stride = 1 + LENGTHS[k, job["a"]["i"], job["a"]["f"]] // STOPS
    other, bad, n, waits = Other(), [], 0, False
    other.start()

    def line(frame, event, arg):
        nonlocal n, waits
        if event == "line" and not waits:
            n += 1
            if n % stride == 0:
                x, f = others[(n // stride) % len(others)]
                other.todo.put(lambda: step(x, f, {}, random.Random(n)))
                try:
                    out = other.answer.get(timeout=3)
                    m = verdict(x, out)
                    if m:
                        bad.append(f"{x['c']} as {f} while a check of {e['c']} as {job['a']['f']} is under way: {m}")
                except queue.Empty:
                    waits = True  # for the outer one
        return line

    def trace(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(PACKAGE) else None

    def outer():
        sys.settrace(trace)
        try:
            return step(e, job["a"]["f"], {}, random.Random(1))
        finally:
            sys.settrace(None)

    t = Stoppable(outer, 0)
    t.start()
    t.join(120)
    if t.is_alive():
        return f"{e['c']} as {job['a']['f']} and others at the same time: hang"
    if bad:
        return bad[0]
    m = verdict(e, t.out)
    return m and f"{e['c']} as {job['a']['f']} while others are checked: {m}"


STOPS = 1500


def isolated(arg):
    """Runs the history in a process of its own, which has not checked anything before"""
    k, line, seed = arg
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = "the check itself failed"
        try:
            h = parse_line(line)["h"]
            out = (everywhere(k, h[0], seed) if "/every/" in seed else (overlap if "/overlap/" in seed else history)(k, h, seed)) or ""
        except BaseException as e:
            out = f"!{type(e).__name__}: {e}"
        finally:
            with os.fdopen(w, "w") as f:
                f.write(out)
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    if out.startswith("!"):
        raise MachineryError(out)
    return out


def collect(base, run):
    """Takes the pools (each part has its own numbers) and yields the histories with their part"""
    for k, lines in enumerate(run.by_part):
        for line in lines:
            if '\\"h\\":' in line[:12]:
                yield base + k, line
            else:
                e = parse_line(line)
                e["x"] = e["x"] or []
                POOL[base + k, e["i"]] = e


def run(rep):
    n = 20 if rep.thorough else 4
    args = ("-simulate", f"num={n}", "-depth", "1000", "-seed", f"{rep.seed}00{{part}}")
    r = rep.tlc("Session", parse=False, args=args)
    jobs = [(k, line) for k, line in collect(0, r)]
    short = [(k, line) for k, line in collect(100, rep.tlc("SessionPairs", parse=False))]
    if len(POOL) < 2400 or len(jobs) != 8 * n:
        raise MachineryError(f"pool {len(POOL)}, histories {len(jobs)}")
    n = 500 if rep.thorough else 40
    over = [(k, line) for k, line in collect(200, rep.tlc("Overlap", parse=False, args=("-simulate", f"num={n}", "-depth", "1000", "-seed", f"{rep.seed}00{{part}}")))]
    if len(over) != 8 * n:
        raise MachineryError(f"overlapping checks {len(over)}")
    load()
    every = [(k, line) for k, line in collect(300, rep.tlc("OverlapAll", parse=False))]
    if len(every) < 600:
        raise MachineryError(f"stopped checks {len(every)}")
    used = sorted({(k, r[x]["i"], r[x]["f"]) for k, line in over for r in parse_line(line)["h"] for x in "ab" if r[x]["p"] >= 0}
                  | {(k, a["i"], a["f"]) for k, line in every for a in [parse_line(line)["h"][0]["a"]]})
    LENGTHS.update(zip(used, pmap(length, used)))
    for what, lines in (("long", jobs), ("short", short), ("overlap", over), ("every", every)):
        items = [(k, line, f"{rep.seed}/{what}/{i}") for i, (k, line) in enumerate(lines)]
        for (k, line, _), m in zip(items, pmap(isolated, items, chunk=1 if what == "long" else 10 if what in ("overlap", "every") else 50)):
            h = parse_line(line)["h"]
            rep.count(f"{what}_histories")
            rep.count("steps", len(h))
            if m:
                used = {s["i"] for s in h} if "i" in h[0] else {s[x]["i"] for s in h for x in "ab"} if what == "overlap" else {h[0]["a"]["i"], *(b["i"] for b in h[0]["b"])}
                rep.violation(m, {"history": h, "documents": {i: dec_node(POOL[k, i]["d"]) for i in used}})
        rep.validated += len(items)
    rep.count("pool", len(POOL))
    rep.sample({"history": parse_line(short[len(short) // 2][1])["h"]})
