"""Random documents from the class table the specification exports"""
import random

from common import *

_table = {}


def table(rep=None):
    if not _table:
        r = (rep.tlc if rep else tlc)("Table", parts=1)
        t = r.lines[0]
        t["min"] = {c: dec_node(n) for c, n in t["min"].items()}
        t["max"] = {c: dec_node(n) for c, n in t["max"].items()}
        _table.update(t)
    return _table


GOOD = {
    "Version": ["0", "1", "9999"], "Revision": ["0", "12"], "Path": ["file:/a", "a/b.txt", "http://[1::8]/x"],
    "ContentType": ["text/plain", "a/b;c=d"], "DateTime": ["2024-02-29T12:00:00Z", "1999-12-31T24:00:00"],
    "Duration": ["PT1M", "-P1Y2M"],
}
BAD = {
    "Version": ["01", "10000", "-1"], "Revision": ["1.0", "00000"], "Path": ["a b", "http://["], "ContentType": ["text", "a/b;c"],
    "DateTime": ["2023-02-29T12:00:00Z", "2024-01-01", "2024-01-01T25:00:00Z"], "Duration": ["P", "1M", "PT"],
}
VALUES = {
    "xs:int": ["0", "-5", "2147483648", "x", "1.0"], "xs:string": ["", "a", "1"], "xs:boolean": ["true", "0", "True"],
    "xs:date": ["2024-02-29", "2023-02-29", "2024-1-1"], "xs:double": ["1e5", "INF", "inf", "1e999"],
    "xs:duration": ["P1D", "P"], "xs:hexBinary": ["0f", "f"], "xs:anyURI": ["a", "a b"], "xs:byte": ["127", "128"],
    "xs:gMonthDay": ["--02-29", "--02-30"], "xs:decimal": ["1.5", "1e5"], "xs:unsignedLong": ["18446744073709551615", "-1"],
}


class Gen:
    """bad: probability of a structurally wrong leaf or object; loose: probability of a semantically risky choice"""

    def __init__(self, rnd, tab, bad=0.0, loose=0.2, depth=4, width=3):
        self.r, self.t, self.bad, self.loose, self.depth, self.width = rnd, tab, bad, loose, depth, width

    def p(self, x):
        return self.r.random() < x

    def junk(self):
        return self.r.choice([None, 1, 0, True, False, "", "x", [], {}, [[]], [None], {"a": 1}, "true", 1.5])

    def key_types(self, ext):
        if self.p(self.loose):
            return [self.r.choice(self.t["literals"]["KeyType"]) for _ in range(self.r.randint(1, 3))]
        if ext:
            return ["GlobalReference"] + (["FragmentReference"] if self.p(0.1) else [])
        return self.r.choice([["Submodel"], ["Submodel", "Property"], ["AssetAdministrationShell"], ["Submodel", "SubmodelElementList", "Property"], ["Submodel", "File", "FragmentReference"]])

    def ref(self, depth, want=None):
        ext = self.p(0.5)
        if want and not self.p(self.loose):
            ext = want == "ext"
        ks = self.key_types(ext)
        r = {"type": "ExternalReference" if ext else "ModelReference", "keys": [{"type": k, "value": self.r.choice(["1", "2", "0", "x"] if self.p(self.loose) else ["1", "2"])} for k in ks]}
        if depth > 0 and self.p(0.1):
            r["referredSemanticId"] = self.ref(depth - 1)
        return r

    def value(self, c, a, ty, depth):
        if self.p(self.bad):
            return self.junk()
        k = ty["k"]
        if k == "list":
            if self.p(self.bad):
                return []
            n = self.r.choice([1, 1, 2, self.width])
            return [self.value(c, a, ty["of"], depth) for _ in range(n)]
        if k == "bool":
            return self.p(0.5)
        if k == "enum":
            if self.p(self.bad):
                return self.r.choice(["x", "", "instance", "XS:STRING"])
            if ty["c"] == "DataTypeDefXsd":
                return self.r.choice(list(VALUES))
            lits = self.t["literals"][ty["c"]]
            if a == "typeValueListElement":
                lits = sorted(self.t["elements"]) if not self.p(self.loose) else lits
            return self.r.choice(sorted(lits))
        if k == "text":
            if a == "language":
                return self.r.choice(["en", "de", "en-US", "EN", "fr"] if not self.p(self.loose / 3) else ["", "e", "en_US", "de-1996", "x-a"])
            return self.r.choice(["t", "text 2", "\U0001F600"] if not self.p(self.loose / 3) else ["", "y" * self.t["lang"][c], "y" * (self.t["lang"][c] + 1), "a\x01"])
        if k == "str":
            return self.string(c, a, ty["c"])
        cc = ty["c"]
        if cc in self.t["abstract"]:
            cc = self.r.choice(sorted(self.t["abstract"][cc]))
            if depth <= 0 and cc not in ("DataSpecificationIec61360",):
                cc = "Property" if "Property" in self.t["abstract"][ty["c"]] else "BasicEventElement"
        if cc == "Reference":
            want = {"observed": "mod", "messageBroker": "mod", "derivedFrom": "mod", "dataSpecification": "ext", "externalSubjectId": "ext"}.get(a)
            if c == "AssetAdministrationShell" and a == "submodels":
                want = "mod"
            if a == "dataSpecification" and not self.p(self.loose):
                return self.t["max"]["EmbeddedDataSpecification"]["dataSpecification"]
            return self.ref(1, want)
        return self.obj(cc, depth - 1)

    def string(self, c, a, s):
        if self.p(self.bad) and s in BAD:
            return self.r.choice(BAD[s])
        if s in GOOD:
            return self.r.choice(GOOD[s])
        lo, hi = self.t["bounds"][s]
        if self.p(self.bad):
            return self.r.choice(["", "z" * (hi + 1) if hi > 0 else "", "a\x00", "a\ufffe"])
        if a == "idShort":
            return self.r.choice(["a", "b", "c"]) if self.p(self.loose) else "i%d" % self.r.randint(0, 10**6) if not self.p(self.loose / 4) else self.r.choice(["1a", "a-b", "_"])
        if a == "category":
            return self.r.choice(["CONSTANT", "PARAMETER", "VARIABLE"]) if not self.p(self.loose) else self.r.choice(["x", "PROPERTY", "VALUE", "REFERENCE", "DOCUMENT", "QUALIFIER_TYPE"])
        if a == "name" and c == "SpecificAssetId":
            return self.r.choice(["n", "globalAssetId"]) if self.p(self.loose) else "n"
        return self.r.choice(["v", "w", "v w", "\u00e4"])

    def obj(self, c, depth):
        attrs = self.t["attrs"][c]
        n = {}
        dens = self.r.choice([0.1, 0.2, 0.4]) if depth > 0 else 0.08
        names = sorted(attrs)
        self.r.shuffle(names)
        for a in names:
            heavy = a in ("extensions", "embeddedDataSpecifications", "qualifiers", "displayName", "description", "supplementalSemanticIds", "administration")
            core = a in ("value", "statements", "submodelElements", "annotations", "inputVariables", "outputVariables", "inoutputVariables", "submodels", "conceptDescriptions", "assetAdministrationShells", "kind")
            q = dens * (0.4 if heavy else 1)
            if core and depth > 0:
                q = 0.7
            if core and depth <= 0 and c in ("SubmodelElementCollection", "SubmodelElementList", "Entity", "Operation", "AnnotatedRelationshipElement"):
                q = 0.05
            if attrs[a]["req"]:
                q = 1 - self.bad
            if self.p(q):
                n[a] = self.value(c, a, attrs[a]["ty"], depth)
        if self.p(self.bad):
            n[self.r.choice(["foo", "id_short", "Value", "kind", "idShort", "text"])] = self.junk()
        self.tidy(c, n)
        if c in self.t["elements"] or c in self.t["typed"] or c == "DataSpecificationIec61360":
            if not self.p(self.bad):
                n["modelType"] = c if not self.p(self.bad) else self.r.choice(["Property", "Foo", "SubmodelElement", None, 3])
        return n

    def tidy(self, c, n):
        """Makes accidental constraint violations rare, so that documents are not all alike"""
        def ids(xs):
            if isinstance(xs, list) and not self.p(self.loose):
                for i, x in enumerate(xs):
                    if isinstance(x, dict):
                        x["idShort"] = "k%d" % i
        if self.p(self.loose):
            return
        if c == "AdministrativeInformation" and "revision" in n:
            n.setdefault("version", "1")
        if "supplementalSemanticIds" in n and "supplementalSemanticIds" in self.t["attrs"][c]:
            n.setdefault("semanticId", self.ref(0))
        for a in ("submodelElements", "statements", "annotations"):
            ids(n.get(a))
        if c == "SubmodelElementCollection":
            ids(n.get("value"))
        if c == "Operation":
            j = 0
            for a in ("inputVariables", "outputVariables", "inoutputVariables"):
                for x in n.get(a) or [] if isinstance(n.get(a), list) else []:
                    if isinstance(x, dict) and isinstance(x.get("value"), dict):
                        x["value"]["idShort"] = "o%d" % j
                        j += 1
        if c == "SubmodelElementList" and isinstance(n.get("value"), list):
            for x in n["value"]:
                if isinstance(x, dict):
                    x.pop("idShort", None)
                    x.pop("semanticId", None)
            if not self.p(self.loose):
                n["value"] = n["value"][:1]
            x = n["value"][0] if n["value"] else None
            if isinstance(x, dict) and isinstance(x.get("modelType"), str):
                n["typeValueListElement"] = x["modelType"]
                if "valueType" in x:
                    n["valueTypeListElement"] = x["valueType"]
                else:
                    n.setdefault("valueTypeListElement", "xs:string")
        if c == "Entity":
            if n.get("entityType") == "SelfManagedEntity":
                n.setdefault("globalAssetId", "g")
            else:
                n.pop("globalAssetId", None)
                n.pop("specificAssetIds", None)
        if c == "AssetInformation":
            n.setdefault("globalAssetId", "g")
        if c == "DataSpecificationIec61360":
            n.pop("value" if self.p(0.5) else "valueList", None)
            n.setdefault("unit", "m")
        vt = n.get("valueType")
        for a in ("value", "min", "max"):
            if isinstance(n.get(a), str) and isinstance(vt, str) and vt in VALUES:
                n[a] = self.r.choice(VALUES[vt]) if self.p(self.loose) else VALUES[vt][0]


def size(v):
    if isinstance(v, dict):
        return 1 + sum(size(i) for i in v.values())
    if isinstance(v, list):
        return 1 + sum(size(i) for i in v)
    return 1


def random_docs(rep, classes, n, seed, maxsize=400, **kw):
    tab = table(rep)
    out = []
    i = 0
    while len(out) < n:
        rnd = random.Random(f"{seed}/{i}")
        i += 1
        g = Gen(rnd, tab, **kw)
        c = rnd.choice(classes)
        d = g.obj(c, kw.get("depth", 4))
        if size(d) <= maxsize:
            out.append((c, d))
    return out
