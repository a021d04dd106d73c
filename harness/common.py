"""Shared machinery: running TLC, materialising inputs, observing results, reporting."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself failed (never used for a wrong answer of the code under test)."""


# --------------------------------------------------------------------------------------------------------------------
# TLC


class TlcRun:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.lines = []
        self.by_part = []
        self.logs = []


def short_log(log):
    i = log.find("Error:")
    j = log.find("*** Errors")
    k = min([x for x in (i, j) if x >= 0] or [0])
    return log[k : k + 1500]


def _tlc_one(module, cfg, part, parts, env, scratch, timeout, args, heap):
    out = os.path.join(scratch, f"{module}.{part}.out")
    e = dict(os.environ)
    e.update({"OUT": out, "PART": str(part), "PARTS": str(parts), "TIER": os.environ.get("VERIF_TIER", "quick")})
    e.update(env)
    cmd = [
        "java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1",
        f"-Djava.io.tmpdir={scratch}", "-cp", CP, "tlc2.TLC",
        "-workers", "1", "-metadir", os.path.join(scratch, f"md.{module}.{part}"), "-noGenerateSpecTE",
        "-config", cfg, *[i.replace("{part}", str(part + 1)) for i in args], module + ".tla",
    ]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module} part {part}")
    log = p.stdout.decode(errors="replace")
    if p.returncode != 0 or "Error:" in log:
        raise MachineryError(f"TLC failed on {module} part {part} (exit {p.returncode}):\n{short_log(log)}")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", log)
    sim = re.search(r"The number of states generated: (\d+)", log)
    lines = []
    if os.path.exists(out):
        with open(out, encoding="utf-8") as f:
            lines = f.read().split("\n")
        os.unlink(out)
    lines = [i for i in lines if i]
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (int(sim.group(1)) if sim else 0, 0)
    return gen, dist, lines, log


def parse_line(line):
    """A line as TLC writes it (a quoted TLA+ string holding JSON) -> value"""
    return json.loads(json.loads(line))


def tlc(module, cfg=None, parts=CORES, env=None, timeout=800, args=(), scratch=None, heap="3g", parse=True):
    """Runs a module (partitioned over `parts` processes) and collects what it emitted"""
    cfg = cfg or module + ".cfg"
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(prefix="verif-tlc-")
    run = TlcRun()
    try:
        with ThreadPoolExecutor(CORES) as ex:
            fs = [ex.submit(_tlc_one, module, cfg, p, parts, env or {}, scratch, timeout, list(args), heap) for p in range(parts)]
            for f in fs:
                g, d, lines, log = f.result()
                run.generated += g
                run.distinct += d
                run.lines += lines
                run.by_part.append(lines)
                run.logs.append(log)
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    if parse:
        run.lines = [parse_line(i) for i in run.lines]
    return run


# --------------------------------------------------------------------------------------------------------------------
# Strings and nodes

_ESC = re.compile(r"\{(\d+)(?:\*(\d+))?\}")


def dec_str(s):
    if "{" not in s:
        return s
    return _ESC.sub(lambda m: chr(int(m.group(1))) * int(m.group(2) or 1), s)


def enc_str(s):
    out = []
    i = 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i]:
            j += 1
        n, c = j - i, s[i]
        plain = " " <= c <= "~" and c not in "{}"
        if n >= 12:
            out.append("{%d*%d}" % (ord(c), n))
        elif plain:
            out.append(c * n)
        else:
            out.append(("{%d}" % ord(c)) * n)
        i = j
    return "".join(out)


def dec_num(s):
    return json.loads(s)


def dec_node(n):
    t = n["t"]
    if t == "s":
        return dec_str(n["v"])
    if t == "o":
        f = n["f"]
        return {dec_str(k): dec_node(v) for k, v in f.items()} if f else {}
    if t == "a":
        return [dec_node(i) for i in n["e"]] if n["e"] else []
    if t == "b":
        return n["v"] == "true"
    if t == "n":
        return dec_num(n["v"])
    if t == "z":
        return None
    raise MachineryError(f"bad node {n}")


def enc_node(v):
    if v is None:
        return {"t": "z"}
    if isinstance(v, bool):
        return {"t": "b", "v": "true" if v else "false"}
    if isinstance(v, str):
        return {"t": "s", "v": enc_str(v)}
    if isinstance(v, (int, float)):
        return {"t": "n", "v": json.dumps(v)}
    if isinstance(v, list):
        return {"t": "a", "e": [enc_node(i) for i in v]}
    if isinstance(v, dict):
        return {"t": "o", "f": {enc_str(k): enc_node(x) for k, x in v.items()}}
    raise MachineryError(f"bad value {v!r}")


# --------------------------------------------------------------------------------------------------------------------
# The code under test

_pkg = {}


def load():
    """Imports the code under test from /repo's working tree (never from stale byte code)"""
    if _pkg:
        return _pkg
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"verif-nopyc-{os.getpid()}")
    sys.path.insert(0, REPO)
    import aas_test_engines
    from aas_test_engines import file, result, config, http, api, exception, data_types

    if not os.path.realpath(aas_test_engines.__file__).startswith(REPO + "/"):
        raise MachineryError("aas_test_engines was not imported from /repo")
    _pkg.update(file=file, result=result, config=config, http=http, api=api, exception=exception, data_types=data_types)
    return _pkg


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


def guarded(fn, *args, limit=20):
    """('ok', value) or ('raised', description) or ('hang', ...)"""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = fn(*args)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", r
    except Hang:
        return "hang", f"no result within {limit} s"
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else ""
        return "raised", f"{type(e).__name__}: {str(e)[:200]} in {where}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_ID = re.compile(r"AAS[dc]-(?:3a-)?\d+")


def norm_loc(loc):
    loc = loc.strip().replace("_", "").lower()
    return loc or "/"


def leaves(result, out=None):
    if out is None:
        out = []
    if not result.sub_results:
        out.append((sev_of(result.level), result.message))
    for i in result.sub_results:
        leaves(i, out)
    return out


SEVERITIES = ("INFO", "WARNING", "ERROR", "CRITICAL")


def sev_of(level):
    return SEVERITIES.index(level.name)


def level_of(n):
    return load()["result"].Level[SEVERITIES[n]]


def finding_of(level, msg):
    """(level, constraint id, location or None, message)"""
    if " @ " in msg:
        head, _, loc = msg.rpartition(" @ ")
        m = _ID.search(head)
        return (level, m.group(0) if m else "", norm_loc(loc), msg)
    m = _ID.search(msg)
    return (level, m.group(0) if m else "", None, msg)


def observe(result):
    return {"ok": result.ok(), "level": sev_of(result.level), "f": [finding_of(l, m) for l, m in leaves(result) if l > 0]}


def compare(exp, obs):
    """None if the observation is what the specification demands, otherwise a description"""
    fs = exp["f"] or []
    located = [f for f in obs["f"] if f[2] is not None]
    other = [f for f in obs["f"] if f[2] is None and f[0] >= 2]
    if other:
        return f"finding without location: {other[0][3][:200]}"
    struct = exp["phase"] == "structure"
    key_e = (lambda f: (norm_loc(f["p"]),)) if struct else (lambda f: (norm_loc(f["p"]), f["id"], f["l"]))
    key_o = (lambda f: (f[2],)) if struct else (lambda f: (f[2], f[1], f[0]))
    if exp["phase"] == "either":
        key_e = lambda f: (norm_loc(f["p"]), f["l"])
        key_o = lambda f: (f[2], f[0])
    must = {key_e(f) for f in fs if f["m"]}
    may = {key_e(f) for f in fs if not f["m"]}
    seen = {key_o(f) for f in located}
    if must - seen:
        return f"not reported: {sorted(must - seen)}"
    if seen - must - may:
        return f"reported without reason: {sorted(seen - must - may)}"
    if struct:
        if any(f[0] < 2 for f in located):
            return "structural finding below error level"
        for f in fs:
            if f["m"] and f["a"] and not any(o[2] == norm_loc(f["p"]) and dec_str(f["a"]) in o[3] for o in located):
                return f"attribute {f['a']!r} is not named in the findings at {f['p'] or '/'}"
    err = any(o[0] >= 2 for o in located)
    if obs["ok"] == err:
        return f"verdict ok={obs['ok']} contradicts the findings"
    if struct and obs["ok"]:
        return "structural error but verdict ok"
    return None


# --------------------------------------------------------------------------------------------------------------------
# Parallel replay


def _init_worker(limit_gb):
    import resource

    if limit_gb:
        resource.setrlimit(resource.RLIMIT_AS, (limit_gb << 30, limit_gb << 30))
    load()


class CodeError(Exception):
    """The code under test raised where it must not"""

    def __init__(self, what, item=None):
        super().__init__(what, item)
        self.what, self.item = what, item


def raised_by_code(e):
    """Was this exception raised inside the code under test, as opposed to the harness?"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    name = os.path.realpath(tb.tb_frame.f_code.co_filename) if tb else ""
    return name.startswith(os.path.realpath(REPO) + os.sep)


def _tell(arg):
    fn, item = arg
    try:
        return fn(item)
    except CodeError:
        raise
    except Exception as e:
        if raised_by_code(e):
            raise CodeError(f"raised {type(e).__name__}: {e}"[:500], repr(item)[:5000]) from None
        raise


def pmap(fn, items, chunk=None, limit_gb=8, procs=CORES):
    """Maps fn over items in worker processes; order is preserved"""
    if not items:
        return []
    load()
    chunk = chunk or max(1, min(200, len(items) // (procs * 4) + 1))
    with ProcessPoolExecutor(procs, get_context("fork"), _init_worker, (limit_gb,)) as pool:
        return list(pool.map(_tell, [(fn, i) for i in items], chunksize=chunk))


# --------------------------------------------------------------------------------------------------------------------
# Binding B: recorded behaviour judged by a trace specification


def judge_traces(rep, module, recs, size=None):
    """Has the specification judge recorded behaviour; yields (record, what the specification says)"""
    if not recs:
        return []
    size = size or (lambda r: 0)
    scratch = tempfile.mkdtemp(prefix="verif-trace-")
    try:
        order = sorted(range(len(recs)), key=lambda i: -size(recs[i]))
        parts = [[] for _ in range(min(CORES, len(recs)))]
        for j, i in enumerate(order):
            parts[j % len(parts)].append(recs[i])
        for k, p in enumerate(parts):
            with open(os.path.join(scratch, f"trace{k}"), "w") as f:
                for r in p:
                    f.write(json.dumps(r) + "\n")
        run = tlc(module, parts=len(parts), env={"TRACE": os.path.join(scratch, "trace")}, parse=False)
        rep.states += run.distinct
        rep.transitions += run.generated
        out = []
        for k, lines in enumerate(run.by_part):
            for line in lines:
                v = parse_line(line)
                out.append((parts[k][v["l"] - 1], v))
        if len(out) != len(recs):
            raise MachineryError(f"{len(recs)} records, {len(out)} judged by {module}")
        rep.validated += len(out)
        rep.count("traced", len(out))
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _on_line(arg):
    fn, line = arg
    return fn(parse_line(line))


def replay_lines(rep, lines, fn, what=""):
    """Replays emitted lines with fn(case) -> None, KNOWN or a description"""
    for line, r in zip(lines, pmap(_on_line, [(fn, i) for i in lines])):
        if r == KNOWN:
            rep.count("known_deviation")
        elif r:
            rep.violation(what + r, parse_line(line))
    rep.validated += len(lines)
    rep.count("replayed", len(lines))
    if lines:
        rep.sample(parse_line(lines[len(lines) // 2]))


KNOWN = "as in known_findings.txt"


# --------------------------------------------------------------------------------------------------------------------
# Reporting


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hit = set()
        self.known = load_findings(prop)

    def tlc(self, *a, **k):
        run = tlc(*a, **k)
        self.states += run.distinct or run.generated
        self.transitions += run.generated
        return run

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s if len(json.dumps(s)) < 3000 else json.dumps(s)[:3000])

    def violation(self, what, case):
        for key, text in self.known:
            if f"{key}:" in what:
                self.known_hit.add((key, text))
                return
        self.violations.append((what, case))

    def finish(self, level="model_checking", assumptions=()):
        ev = {
            "property": self.prop,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or ["-"],
                **self.extra,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        if self.violations:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump([{"what": w, "case": c} for w, c in self.violations[:20]], f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                print(f"  {w[:600]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held on {self.validated} executions, {self.states} model states, {ev['wall_s']} s")
        return 0


_keys = None


def known_keys():
    """Keys of all recorded findings"""
    global _keys
    if _keys is None:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            _keys = set(re.findall(r'^finding: property=\S+ key="(.*?)"', f.read(), re.M))
    return _keys


def load_findings(prop):
    """[(key, text)]: a violation whose description contains key is the known finding"""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=\"(.*?)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out
