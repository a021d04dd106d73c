"""A stand-in for the network: answers the requests of compliance runs and records them (C17-C21)"""
import zlib
import base64
import contextlib
import copy
import io
import json
import re
from urllib.parse import parse_qsl, unquote, urlsplit

from common import *

AAS = "https://example.com/ids/aas/\u00e4\u4e2d~?1"
SM = "https://example.com/ids/sm/\U0001f600>>2"
ASSET = "urn:asset:1/\u00fc"
ID_SHORT = "Shell_1"
CURSOR = "Q1 + ue/2=?&\u00e9"
PREFIX = "https://admin-shell.io/aas/API/3/0/"


def unb64(s):
    """The text a piece of unpadded URL-safe base64 stands for, or None"""
    if not re.fullmatch(r"[A-Za-z0-9_-]+", s) or len(s) % 4 == 1:
        return None
    try:
        return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)).decode()
    except (ValueError, UnicodeDecodeError):
        return None


# --------------------------------------------------------------------------------------------------------------------
# The server's data


def key(t, v):
    return {"type": t, "value": v}


def shell(other=False):
    return {
        "modelType": "AssetAdministrationShell", "id": AAS + ("x" if other else ""), "idShort": "Other" if other else ID_SHORT,
        "assetInformation": {"assetKind": "Instance", "globalAssetId": ASSET},
        "submodels": [ref_sm()],
    }


def ref_aas():
    return {"type": "ModelReference", "keys": [key("AssetAdministrationShell", AAS)]}


def ref_sm():
    return {"type": "ModelReference", "keys": [key("Submodel", SM)]}


def ref_el():
    return {"type": "ModelReference", "keys": [key("Submodel", SM), key("Property", "p")]}


def element(t, name=None):
    e = {"modelType": t, "idShort": name or "el" + t}
    if t in ("Property", "Range"):
        e["valueType"] = "xs:int"
    elif t == "SubmodelElementCollection":
        e["value"] = [element("Range", "inner")]
    elif t == "SubmodelElementList":
        e["typeValueListElement"] = "Capability"
        e["value"] = [{"modelType": "Capability"}]
    elif t == "Entity":
        e["entityType"] = "CoManagedEntity"
    elif t == "BasicEventElement":
        e.update(observed=ref_el(), direction="input", state="on")
    elif t in ("RelationshipElement", "AnnotatedRelationshipElement"):
        e.update(first=ref_el(), second=ref_el())
    elif t in ("Blob", "File"):
        e["contentType"] = "text/plain"
    return e


def elements(w):
    return [element(t) for t in w["types"]]


def element_types(w):
    """path -> type"""
    out = {"el" + t: t for t in w["types"]}
    if "SubmodelElementCollection" in w["types"]:
        out["elSubmodelElementCollection.inner"] = "Range"
    return out


def submodel(w, other=False):
    r = {"modelType": "Submodel", "id": SM + ("x" if other else ""), "submodelElements": elements(w)}
    if not r["submodelElements"]:
        del r["submodelElements"]
    return r


ERROR = {"messages": [{"code": "1", "correlationId": "2", "messageType": "Error", "text": "no", "timestamp": "2020-01-01T00:00:00Z"}]}

# --------------------------------------------------------------------------------------------------------------------
# Requests, written as in Api.tla


def canon(w, path, query):
    """The canonical form of a request; None if it makes no sense"""
    ps = path.split("/")
    out = []
    types = element_types(w)
    for i, s in enumerate(ps):
        prev = ps[i - 1] if i else ""
        if s and not s.startswith("$") and prev in ("shells", "submodels"):
            t = unb64(s)
            s = "{aas}" if t == AAS and prev == "shells" else "{sm}" if t == SM and prev == "submodels" else "{bad}" if t is None else "{?}"
        elif s and not s.startswith("$") and prev == "submodel-elements":
            t = types.get(unquote(s))
            s = "{el:%s}" % t if t else "{?}"
        out.append(s)
    qs = []
    for k, v in sorted(query):
        if k == "limit":
            v = "-1" if re.fullmatch("-[0-9]+", v) else v
        elif k == "level":
            v = v if v in ("core", "deep") else "#####"
        elif k == "extent":
            v = v if v in ("withBlobValue", "withoutBlobValue") else "#" * 17
        elif k == "includeConceptDescriptions":
            v = v if v in ("true", "false") else "invalid-bool"
        elif k in ("aasIds", "submodelIds", "assetIds"):
            t = unb64(v)
            if t is None:
                v = "{bad}"
            elif k == "assetIds":
                try:
                    v = "{asset}" if json.loads(t) == {"name": "globalAssetId", "value": ASSET} else "{?}"
                except ValueError:
                    v = "{?}"
            else:
                v = "{aas}" if t == AAS and k == "aasIds" else "{sm}" if t == SM and k == "submodelIds" else "{?}"
        elif k == "cursor":
            v = "{cursor}" if v == CURSOR else "{?}"
        elif k == "idShort":
            v = "{idShort}" if v == ID_SHORT else v
        qs.append(f"{k}={v}")
    return "/".join(out) + ("?" + "&".join(qs) if qs else "")


BAD = re.compile(r"\{bad\}|=#|limit=-1|invalid-bool")
SML = ("SubmodelElementCollection", "SubmodelElementList", "Entity")


def kind_of(u):
    """The kind of response a (sensible) request deserves; 'refuse' if it has to be refused, None if it is unknown"""
    if BAD.search(u):
        return "refuse"
    if "{?}" in u:
        return None
    p = u.split("?")[0]
    if p == "":
        return "root"
    if p == "/description":
        return "description"
    if re.fullmatch(r"(/aas|/submodel)?/serialization", p):
        return "environment"
    if re.fullmatch(r"(/aas|/submodel)?/shells", p):
        return "shells"
    if p == "/shells/$reference":
        return "refs"
    for k, v in (("/submodels", "submodels"), ("/submodels/$metadata", "submodels"), ("/submodels/$value", "values"),
                 ("/submodels/$reference", "refs"), ("/submodels/$path", "paths")):
        if p == k:
            return v
    m = re.fullmatch(r"(/shells/\{aas\}|/aas)?/submodels/\{sm\}(.*)|/submodel(/.*|)", p)
    if m:
        return of_submodel(m.group(2) if m.group(2) is not None else m.group(3), p)
    m = re.fullmatch(r"(/shells/\{aas\}|/aas)(/?|/\$reference|/asset-information|/asset-information/thumbnail|/submodel-refs)", p)
    if m:
        return {"": "shell", "/": "shell", "/$reference": "reference", "/asset-information": "assetinfo",
                "/asset-information/thumbnail": "bytes", "/submodel-refs": "smrefs"}[m.group(2)]
    if p == "/":
        return "shell"
    return None


def of_submodel(s, p):
    by_id = not p.startswith("/submodel/") and p != "/submodel"
    fixed = {"": "submodel", "/": "submodel", "/$metadata": "submodel", "/$value": "any", "/$path": "strings",
             "/$reference": "smreference" if by_id else "ereference",
             "/submodel-elements": "elements", "/submodel-elements/$metadata": "elements", "/submodel-elements/$value": "values",
             "/submodel-elements/$reference": "erefs", "/submodel-elements/$path": "paths"}
    if s in fixed:
        return fixed[s]
    m = re.fullmatch(r"/submodel-elements/\{el:(\w+)\}(.*)", s)
    if not m:
        return None
    t, x = m.groups()
    if x == "":
        return "element:" + t
    if x == "/$metadata":
        return "refuse" if t in ("Capability", "Operation") else "any"
    if x == "/$path":
        return "strings" if t in SML else "refuse"
    return {"/$value": "any", "/$reference": "ereference", "/attachment": "bytes"}.get(x)


def items(w, k, u):
    """What a list holds"""
    if k == "shells":
        return [] if "idShort=does-not-exist" in u else [shell()]
    if k == "refs":
        return [] if "idShort=does-not-exist" in u else [ref_aas()]
    return {"smrefs": lambda: [ref_sm()], "submodels": lambda: [submodel(w)], "values": lambda: [5, {"a": [1]}, "x"], "paths": lambda: ["a", "b[0].c"],
            "elements": lambda: elements(w), "erefs": lambda: [ref_el()]}[k]()


LISTS = ("shells", "refs", "smrefs", "submodels", "values", "paths", "elements", "erefs")


def good(w, k, u, profile):
    """The proper body"""
    if k in LISTS:
        r = items(w, k, u)
        if "limit=1" in u:
            r = r[:1]
        meta = {"cursor": CURSOR} if w["cursor"] else {}
        return {"paging_metadata": meta, "result": r}
    if k.startswith("element:"):
        return element(k[8:])
    return {"shell": lambda: shell(), "reference": lambda: ref_aas(), "smreference": lambda: ref_sm(), "ereference": lambda: ref_el(),
            "assetinfo": lambda: shell()["assetInformation"], "submodel": lambda: submodel(w),
            "environment": lambda: {"assetAdministrationShells": [shell()], "submodels": [submodel(w)], "conceptDescriptions": [{"modelType": "ConceptDescription", "id": "urn:cd"}]},
            "description": lambda: {"profiles": ["x", profile]}, "strings": lambda: ["a", "b.c"], "any": lambda: {"a": 1}}[k]()


# A model reference whose keys make no sense (AASd-123)
NONSENSE = {"type": "ModelReference", "keys": [key("Property", "p")]}


def spoil(v, k, c, w):
    """A defective body: v is the proper one"""
    v = copy.deepcopy(v)
    if c == "wrong":
        if isinstance(v, list):
            return {"a": v}
        if k in LISTS:
            v["result"] = {"a": 1}
            return v
        return [v]
    if c == "extra":
        if isinstance(v, list):
            return v + [7]
        v["unknownAttribute"] = "x"
        return v
    if c == "missing":
        if k in LISTS:
            del v["result"]
            return v
        for n in ("id", "keys", "assetKind", "profiles", "modelType"):
            if n in v:
                del v[n]
                return v
        raise MachineryError(f"nothing to leave out of {k}")
    if c == "constraint":
        if k in LISTS:
            i = {"shells": shell, "refs": ref_aas, "smrefs": ref_sm, "submodels": lambda: submodel(w), "elements": lambda: element("Capability")}[k]()
            v["result"] = [constraint(i)]
            return v
        if k == "environment":
            v["submodels"] = [constraint(v["submodels"][0])]
            return v
        return constraint(v)
    if c == "empty":
        if isinstance(v, list):
            return []
        v["result"] = []
        return v
    if c in ("noids", "nogid", "nosms"):
        for i in v["result"] if k in LISTS else [v]:
            if c == "nogid":
                del i["assetInformation"]["globalAssetId"]
                i["assetInformation"]["specificAssetIds"] = [{"name": "serial", "value": "1"}]
            else:
                del i["idShort" if c == "noids" else "submodels"]
        return v
    if c == "noval":
        for i in v["result"]:
            if i["modelType"] in ("SubmodelElementCollection", "SubmodelElementList"):
                i.pop("value", None)
        return v
    if c == "two":
        i = {"shells": [shell(), shell(True)], "refs": [ref_aas()] * 2, "smrefs": [ref_sm()] * 2, "submodels": [submodel(w), submodel(w, True)],
             "values": [1, 2], "paths": ["a", "b"], "elements": [element("Capability", "c1"), element("Capability", "c2")], "erefs": [ref_el()] * 2}[k]
        if k == "elements":
            i = elements(w)
            i = i if len(i) >= 2 else i + [element("Capability", "c2")]
            i = i[:2]
        v["result"] = i
        return v
    if c == "other":
        if k == "shell":
            return shell(True)
        if k in ("reference", "smreference"):
            v["keys"][0]["value"] += "x"
            return v
        if k == "submodel":
            return submodel(w, True)
        if k == "shells":
            v["result"] = [shell(True)]
            return v
        if k == "description":
            return {"profiles": ["x"]}
        if k == "environment":
            del v["conceptDescriptions"]
            return v
    raise MachineryError(f"no variant {c} of {k}")


def constraint(i):
    if "assetInformation" in i:
        i["assetInformation"] = {"assetKind": "Instance"}
    elif "assetKind" in i:
        i = {"assetKind": "Instance"}
    elif "keys" in i:
        i = copy.deepcopy(NONSENSE)
    else:
        i["semanticId"] = copy.deepcopy(NONSENSE)
    return i


def respond(w, u, c, profile):
    """(status, body) for a request answered in the way c, or an exception"""
    import requests

    if c in LOST:
        x = requests.exceptions
        kinds = (x.ConnectionError, x.SSLError, x.ChunkedEncodingError, x.ProxyError, x.ContentDecodingError, x.TooManyRedirects, x.ConnectionError, x.RetryError) if c == "drop" else (x.ReadTimeout, x.ConnectTimeout)
        raise kinds[zlib.crc32(u.encode()) % len(kinds)](c)
    if c in ("s500", "s503", "s599"):
        return int(c[1:]), json.dumps(ERROR)
    if c.startswith("s400") or c in ("s404e", "s499e"):
        body = {"s400f": ERROR, "s400o": {}, "s404e": {"messages": [{}]}, "s499e": ERROR, "s400p": {"messages": [{"text": "no", "messageType": "Exception"}]},
                "s400scalar": 5, "s400list": [ERROR], "s400extra": {**ERROR, "x": 1}, "s400type": {"messages": "no"},
                "s400kind": {"messages": [{"messageType": "Fatal"}]}}.get(c)
        if c == "s400html":
            return 400, "<html/>"
        if c == "s400none":
            return 400, ""
        return int(c[1:4]), json.dumps(body)
    k = kind_of(u)
    if k == "root":
        return 200, "hello"
    if k is None:
        return 404, json.dumps(ERROR)
    if k == "bytes":
        return 200, "\x89binary"
    if k == "refuse":
        if c == "good":
            return 400, json.dumps(ERROR)
        # taken for a proper request
        k, v = "", ERROR
    else:
        v = good(w, k, u, profile)
    if c in ("s201", "s204", "s302", "s304"):
        return int(c[1:]), "" if c in ("s204", "s304") else json.dumps(v, ensure_ascii=False)
    if c == "s200e":
        return 200, json.dumps(ERROR)
    if c == "html":
        return 200, "<html></html>"
    if c == "scalar":
        return 200, "5"
    if c == "null":
        return 200, "null"
    return 200, json.dumps(v if c == "good" else spoil(v, k, c, w), ensure_ascii=False)


# --------------------------------------------------------------------------------------------------------------------
# Running


class Net:
    """Everything sent through requests"""

    def __init__(self, handler):
        self.handler = handler
        self.sent = []

    def send(self, adapter, request, **kw):
        import requests

        body = request.body
        self.sent.append({"method": request.method, "url": request.url, "headers": dict(request.headers), "body": body, "verify": kw.get("verify")})
        status, content = self.handler(len(self.sent) - 1, request)
        r = requests.models.Response()
        r.status_code = status
        r._content = content.encode() if isinstance(content, str) else content
        r.encoding = "utf-8"
        r.url = request.url
        r.request = request
        r.raw = io.BytesIO(b"")
        r.headers = requests.structures.CaseInsensitiveDict({"content-type": "application/json"})
        return r


@contextlib.contextmanager
def network(net):
    import requests.adapters as ra

    old = ra.HTTPAdapter.send
    ra.HTTPAdapter.send = lambda self, request, **kw: net.send(self, request, **kw)
    try:
        yield net
    finally:
        ra.HTTPAdapter.send = old


def split_url(url, base="/base"):
    """(path below the base, decoded query) of a URL"""
    s = urlsplit(url)
    path = s.path
    if not path.startswith(base):
        return None, []
    return path[len(base):], parse_qsl(s.query, keep_blank_values=True, strict_parsing=False)


HOST = "http://stub.example:81/base"


def run_suite(w, profile, choose, flt=None, dry=False, client=None):
    """Runs the compliance tests of a profile. choose(n, u) -> way to answer the n-th request (0: the reachability check)"""
    pkg = load()
    conf = pkg["config"].CheckApiConfig(suite=PREFIX + profile, dry=dry, filter=pkg["config"].TestCaseFilter(flt) if flt is not None else None)
    log = []

    def handler(n, request):
        path, query = split_url(request.url)
        u = canon(w, path, query) if path is not None else "{?}"
        if n == 0 and path == "/":
            u = ""
        c = choose(n, u)
        log.append({"u": u, "c": c})
        return respond(w, u, c, PREFIX + profile)

    def go():
        cl = client() if client else pkg["http"].HttpClient(host=HOST)
        return pkg["api"].execute_tests(cl, conf)

    net = Net(handler)
    with network(net):
        st, r = guarded(go, limit=120)
    return st, r, log, net.sent


def invokes(result):
    """Number of requests made within a scope"""
    n = 1 if result.message.startswith("Invoke ") and not result.sub_results else 0
    return n + sum(invokes(i) for i in result.sub_results)


LOST = ("drop", "timeout")


def lost(result):
    """Did an error end a scope within?"""
    return result.message.startswith("Internal error") or any(lost(i) for i in result.sub_results)


def record_run(st, r, log):
    """What was observable of a run"""
    if st != "ok":
        return {"st": st, "what": r, "reqs": log}
    result, mat = r
    pos = [0]

    def take(node):
        n = invokes(node)
        rs = log[pos[0]: pos[0] + n]
        pos[0] += n
        if lost(node) and not (rs and rs[-1]["c"] in LOST) and pos[0] < len(log) and log[pos[0]]["c"] in LOST:
            # an inner scope which was left by the error may be missing
            rs = log[pos[0] - n: pos[0] + 1]
            pos[0] += 1
        return {"l": sev_of(node.level), "rs": rs}

    ops, reach, summary, other = [], None, None, []
    for s in result.sub_results:
        m = s.message
        if m.startswith("Trying to reach"):
            reach = {"l": sev_of(s.level)}
            if log:
                pos[0] = 1 if log[0]["u"] == "" else 0
            reach["rs"] = log[: pos[0]]
        elif m.startswith("Checking "):
            op = {"o": m[len("Checking "):], "l": sev_of(s.level), "setup": [], "neg": [], "pos": [], "ran": False, "x": []}
            for t in s.sub_results:
                if t.message == "Setup":
                    op["setup"].append(take(t))
                elif t.message in ("Negative Tests", "Positive Tests"):
                    op["ran"] = True
                    op[t.message[:3].lower()] += [take(i) for i in t.sub_results]
                else:
                    op["x"].append(t.message)
            ops.append(op)
        elif m.startswith("Summary"):
            summary = [[int(x) for x in re.findall(r"\d+", i.message)] for i in s.sub_results]
        else:
            other.append(m)
    return {"st": "ok", "ok": result.ok(), "l": sev_of(result.level), "reach": reach, "ops": ops, "summary": summary, "other": other,
            "mat": [mat.invalid_rejected, mat.invalid_accepted, mat.valid_accepted, mat.valid_rejected], "left": len(log) - pos[0],
            "reqs": log}
