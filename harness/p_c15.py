import runpy
import tempfile as _tf

from apirun import *
from p_c08 import build

W = {"cursor": True, "types": ["Property", "File"]}
NS = "https://admin-shell.io/aas/3/0"
SUB = {"modelType": "Submodel", "id": "urn:sm", "submodelElements": [{"modelType": "Property", "idShort": "p", "valueType": "xs:int", "value": "5"}]}
XSUB = f"<submodel xmlns='{NS}'><id>urn:sm</id></submodel>"


WARN = {"modelType": "ConceptDescription", "id": "urn:cd", "embeddedDataSpecifications": [
    {"dataSpecification": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "urn:\u4e2d\u00e9"}]},
     "dataSpecificationContent": {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "en", "text": "a"}], "definition": [{"language": "en", "text": "d"}]}}]}


def pkg_bytes(kind):
    name = "d\u00e9\u4e2d\u6587.json" if kind == "aodd" else "d.json"
    part = {"n": ["aasx", name], "x": "json", "c": "jbad" if kind == "aerr" else "jok", "rs": "none", "r": []}
    origin = {"n": ["aasx", "o"], "x": "other", "c": "jok", "rs": "ok", "r": [{"k": "ok", "y": "spec", "p": {"abs": True, "s": ["aasx", name]}}]}
    if kind == "awarn":
        origin["r"] = []
        origin["rs"] = "none"
    return build({"ct": "ok", "root": {"rs": "ok", "r": [{"k": "ok", "y": "origin", "p": {"abs": True, "s": ["aasx", "o"]}}]}, "parts": [origin, part]})


def content(kind):
    if kind in ("aok", "aerr", "awarn", "aodd"):
        b = pkg_bytes(kind)
        return b.getvalue() if hasattr(b, "getvalue") else b
    if kind[1:].isdigit():
        return json.dumps({f"a{i}": 1 for i in range(int(kind[1:]))}).encode()
    return {
        "jodd": '{"a\\ud800\\u0007\\ufffe": 1, "\\u4e2d\\u00e9<b>": 2, "x\\udfff\\ud83d\\ude00": 3}', "jwarn": json.dumps({"conceptDescriptions": [WARN]}),
        "xodd": f"<environment xmlns='{NS}'><\u4e2d\u00e9/><submodels>\U0001f600 \u0394</submodels></environment>",
        "jok": json.dumps({"submodels": [SUB]}), "jerr": json.dumps({"submodels": [{**SUB, "id": ""}], "<b>&\u00e9": 1}), "jsub": json.dumps(SUB),
        "jsuberr": json.dumps({**SUB, "kind": "Nonsense"}),
        "xok": f"<environment xmlns='{NS}'><submodels>{XSUB}</submodels></environment>", "xerr": f"<environment xmlns='{NS}'><wrong/></environment>", "xsub": XSUB,
        "garbage": "\u00ff\u00fe<{]", "empty": "",
    }[kind].encode("utf-8")


HEADERS = {"-": {}, "one": {"X-A": "1"}, "two": {"X-A": "1", "X-B": "b c"}, "colons": {"X-A": "http://x:1"}, "blanks": {"X-A": "v"}}
HEADER_ARGS = {"-": [], "one": ["X-A:1"], "two": ["X-A:1", "X-B: b c"], "colons": ["X-A:http://x:1"], "blanks": [" X-A : v "], "broken": ["X-A"]}
HOSTC = "https://stub.example:81/base"


def encoding(cl):
    return "utf-8" if cl["enc"] == "-" else cl["enc"]


def argv(cl, path):
    if cl["cmd"] == "-":
        return []
    a, pos = [], []
    if cl["cmd"] == "check_file":
        pos = [path]
        if cl["f"] != "-":
            a += ["--format", cl["f"]]
        if cl["m"] != "-":
            a += ["--model_type", cl["m"]]
    elif cl["cmd"] == "check_server":
        pos = [HOSTC, cl["s"]]
        if cl["v"] != "-":
            a += ["--version", cl["v"]]
        if cl["flt"] != "-":
            a += ["--filter", cl["flt"]]
        if cl["dry"]:
            a.append("--dry")
        if cl["nv"]:
            a.append("--no-verify")
        if cl["rm"] != "-":
            a += ["--remove-path-prefix", cl["rm"]]
    head = ["--header", *HEADER_ARGS[cl["h"]]] if cl["h"] != "-" else []
    if cl["o"] != "-":
        a += ["--output", cl["o"]]
    if cl["extra"]:
        a.append("--no-such-option")
    if cl["w"] == 2:
        b, a = a, []
        while b:
            a.append(b[0] + "=" + b.pop(1) if len(b) > 1 and not b[1].startswith("--") else b[0])
            b.pop(0)
    if cl["w"]:
        return [cl["cmd"], *head, *a, *pos] if a and head else [cl["cmd"], *a, *pos, *head]
    return [cl["cmd"], *pos, *a, *head]


def run_main(args, enc):
    """(exit status, standard output) of python -m aas_test_engines"""
    raw = io.BytesIO()
    out, err = io.TextIOWrapper(raw, encoding=enc, newline=""), io.StringIO()
    old = sys.argv
    sys.argv = ["aas_test_engines", *args]
    sys.modules.pop("aas_test_engines.__main__", None)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_module("aas_test_engines", run_name="__main__", alter_sys=False)
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                return None, f"{type(e).__name__}: {e}", ""
        out.flush()
        return code & 255, raw.getvalue().decode(enc, "replace"), err.getvalue()
    finally:
        sys.argv = old


def server(cl, suite):
    def handler(n, request):
        path, query = split_url(request.url)
        u = "" if n == 0 else canon(W, path, query) if path is not None else "{?}"
        if cl["rm"] != "-" and u == "":
            u = "" if n == 0 else cl["rm"]
        return respond(W, u, cl["mood"], suite)
    return Net(handler)


def library(cl, case, path):
    """What the library says"""
    pkg = load()
    if cl["cmd"] == "check_file":
        f = "aasx" if cl["f"] == "-" else cl["f"]
        m = "Environment" if cl["m"] == "-" else cl["m"]
        with open(path, "rb") as fh:
            if f == "aasx":
                return pkg["file"].check_aasx_file(fh)
            return (pkg["file"].check_json_file if f == "json" else pkg["file"].check_xml_file)(fh, model_type=m)
    with network(server(cl, case["suite"])):
        return pkg["api"].execute_tests(
            pkg["http"].HttpClient(HOSTC, verify=not cl["nv"], remove_path_prefix="" if cl["rm"] == "-" else cl["rm"], additional_headers=HEADERS[cl["h"]]),
            pkg["config"].CheckApiConfig(suite=case["suite"], dry=cl["dry"], filter=None if cl["flt"] == "-" else pkg["config"].TestCaseFilter(cl["flt"])))[0]


def shown(result, output):
    if output == "text":
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            result.dump()
        return b.getvalue()
    return result.to_html() if output == "html" else result.to_dict()


def norm(out, output):
    if output == "json":
        try:
            return json.loads(out)
        except ValueError:
            return out
    return out.strip()


def printed(got, want, enc):
    """Is it what should be printed, but for characters the encoding lacks (left open how they appear)?"""
    known = [c if c.encode(enc, "ignore").decode(enc) == c else None for c in want]
    pattern = "".join(re.escape(c) if c is not None else "(?:[^\\n<]{0,12}?)" for c in known)
    return re.fullmatch(pattern, got) is not None


def judge(case, cl, code, out, path, name):
    if (code == 0) != case["zero"]:
        return f"{name}: exit status {code}, expected {'0' if case['zero'] else 'another than 0'}: {out[-200:]}"
    if case["checked"]:
        r = library(cl, case, path)
        want = shown(r, case["printed"])
        enc = encoding(cl)
        if norm(out, case["printed"]) != want if case["printed"] == "json" else not printed(out.strip(), want.strip(), enc):
            return f"{name}: prints {out[:300]!r}, expected {str(want)[:300]!r}"
        if r.ok() != case["zero"]:
            return f"{name}: the library says ok={r.ok()}, the specification {case['zero']}"
    return None


def replay(case):
    load()
    cl = case["cl"]
    d = _tf.mkdtemp(prefix="verif-cli-")
    try:
        path = os.path.join(d, "in put.bin")
        if cl["c"] != "missing":
            with open(path, "wb") as f:
                f.write(content(cl["c"]))
        args = argv(cl, path)
        name = " ".join(a if a != path else cl["c"] for a in args) + (f" (server: {cl['mood']})" if cl["cmd"] == "check_server" else "")
        net = server(cl, case["suite"])
        with network(net):
            st, r = guarded(run_main, args, encoding(cl), limit=60)
        if st != "ok":
            return f"{name}: {st} {r}"
        if r[0] is None and case["abrupt"]:
            r = (1, "", r[1])
        if r[0] is None:
            return f"{name}: ends with an unhandled exception: {r[1]}"
        if not (r[1] + r[2]).strip():
            return f"{name}: exit status {r[0]} without a word"
        m = judge(case, cl, r[0], r[1], path, name)
        if m:
            return m
        if bool(net.sent) != case["sends"]:
            return f"{name}: {len(net.sent)} requests"
        for s in net.sent:
            h = {k.lower(): v for k, v in s["headers"].items()}
            for k, v in HEADERS.get(cl["h"], {}).items():
                if h.get(k.lower()) != v:
                    return f"{name}: header {k} is {h.get(k.lower())!r} instead of {v!r}"
            if not s["url"].startswith(HOSTC):
                return f"{name}: request to {s['url']}"
            if bool(s["verify"]) is cl["nv"]:
                return f"{name}: certificates are {'' if s['verify'] else 'not '}checked"
        if cl["rm"] == "/description" and cl["flt"] == "GetDescription" and any("/description" in s["url"] for s in net.sent):
            return f"{name}: the prefix is not removed"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def real(case):
    """The same with a process of its own (files only)"""
    cl = case["cl"]
    d = _tf.mkdtemp(prefix="verif-cli-")
    try:
        path = os.path.join(d, "in put.bin")
        if cl["c"] != "missing":
            with open(path, "wb") as f:
                f.write(content(cl["c"]))
        args = argv(cl, path)
        p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "aas_test_engines", *args], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, env={**os.environ, "PYTHONIOENCODING": encoding(cl)})
        return judge(case, cl, p.returncode, p.stdout.decode(encoding(cl), "replace"), path, "process: " + " ".join(args))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _real_line(line):
    return real(parse_line(line))


def run(rep):
    r = rep.tlc("Cli", parse=False)
    replay_lines(rep, r.lines, replay)
    cases = sorted(l for l in r.lines if '\\"cmd\\":\\"check_server\\"' not in l or '\\"dry\\":true' in l)
    pick = cases[:: max(1, len(cases) // (400 if rep.thorough else 48))]
    for line, m in zip(pick, pmap(_real_line, pick, chunk=1)):
        rep.validated += 1
        rep.count("processes")
        if m:
            rep.violation(m, parse_line(line))
