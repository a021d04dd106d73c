"""Writing the XML trees of the specification, in several styles"""
import io
from xml.etree import ElementTree

from common import *

AAS = "https://admin-shell.io/aas/3/0"
NS = {"aas": AAS, "none": "", "short": "urn:x", "long": "https://example.com/a/rather/long/namespace/here", "near": "https://admin-shell.io/aas/3/1"}
STYLES = ("plain", "prefixed", "indented", "comments", "utf16", "cdata", "latin1", "refs", "declared")


def esc(s, style):
    if style == "cdata" and s and "]]>" not in s and "\r" not in s:
        return f"<![CDATA[{s}]]>"
    if style == "refs":
        return "".join(f"&#{ord(c)};" if not c.isalnum() or ord(c) > 126 else c for c in s)
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if style == "latin1":
        return "".join(c if ord(c) < 256 and not 0x7F <= ord(c) < 0xA0 else f"&#{ord(c)};" for c in s)
    return s


def write(e, style, outer=None, depth=0, out=None):
    """The element as text"""
    ns = NS[e["ns"]]
    if style == "prefixed":
        pre = {AAS: "aas:", "": ""}.get(ns, "o:")
        decl = ""
        if depth == 0:
            decl = f' xmlns:aas="{AAS}"'
        if pre == "o:":
            decl += f' xmlns:o="{ns}"'
    else:
        pre = ""
        decl = f' xmlns="{ns}"' if ns != outer else ""
    tag = pre + e["g"]
    kids = e["c"] or []
    ind = "\n" + "\t" * (depth + 1) if style == "indented" and kids else ""
    com = "<!-- c --><?pi x?>" if style == "comments" else ""
    text = dec_str(e["x"])
    if com and len(text) > 1 and text[0] != "\r":
        body = esc(text[:1], style) + com + esc(text[1:], style)
    else:
        body = esc(text, style) + com
    for k in kids:
        body += ind + write(k, style, ns, depth + 1) + esc(dec_str(k["tl"]), style) + com
    if ind:
        body += "\n" + "\t" * depth
    return f"<{tag}{decl}>{body}</{tag}>" if body or style != "plain" else f"<{tag}{decl}/>"


def encode(e, style):
    """The document as bytes"""
    t = write(e, style)
    if style == "utf16":
        return ('<?xml version="1.0" encoding="UTF-16"?>' + t).encode("utf-16")
    if style == "latin1":
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>\n' + t).encode("latin-1")
    if style == "declared":
        return ('<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n<!-- a document -->\n' + t + "\n<!-- end -->\n").encode()
    if style == "indented":
        return b"\xef\xbb\xbf" + t.encode()
    return t.encode()


def element(e):
    """The document as a parsed tree, built without a parser"""
    def tag(x):
        return "{%s}%s" % (NS[x["ns"]], x["g"]) if NS[x["ns"]] else x["g"]

    r = ElementTree.Element(tag(e))
    r.text = dec_str(e["x"]) or None
    for k in e["c"] or []:
        c = element(k)
        c.tail = dec_str(k["tl"]) or None
        r.append(c)
    return r
