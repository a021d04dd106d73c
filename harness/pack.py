"""Packages around documents"""
import io
import zipfile

T = "http://admin-shell.io/aasx/relationships/"
NS_C = "http://schemas.openxmlformats.org/package/2006/content-types"
NS_R = "http://schemas.openxmlformats.org/package/2006/relationships"


def rels(*rs):
    return f'<?xml version="1.0"?><Relationships xmlns="{NS_R}">' + "".join(f'<Relationship Id="r{i}" Type="{T}{y}" Target="{t}"/>' for i, (y, t) in enumerate(rs)) + "</Relationships>"


def package(target, data, more=()):
    """A package whose only specification (or further ones) is the given document"""
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("[Content_Types].xml", f'<?xml version="1.0"?><Types xmlns="{NS_C}"><Default Extension="rels" ContentType="application/xml"/></Types>')
        z.writestr("_rels/.rels", rels(("aasx-origin", "/aasx/aasx-origin")))
        z.writestr("aasx/aasx-origin", "")
        docs = [(target, data), *more]
        z.writestr("aasx/_rels/aasx-origin.rels", rels(*[("aas-spec", t) for t, _ in docs]))
        for t, d in docs:
            z.writestr(t.lstrip("/"), d)
    return b.getvalue()
