"""Independent helpers: they use zipfile and lxml directly, not ezodf."""
import io
import re
import zipfile

from lxml import etree

NS = {
    "office": "urn:oasis:names:tc:opendocument:xmlns:office:1.0",
    "text": "urn:oasis:names:tc:opendocument:xmlns:text:1.0",
    "table": "urn:oasis:names:tc:opendocument:xmlns:table:1.0",
    "draw": "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0",
    "style": "urn:oasis:names:tc:opendocument:xmlns:style:1.0",
    "meta": "urn:oasis:names:tc:opendocument:xmlns:meta:1.0",
    "dc": "http://purl.org/dc/elements/1.1/",
    "manifest": "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0",
    "xlink": "http://www.w3.org/1999/xlink",
    "fo": "urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0",
    "presentation": "urn:oasis:names:tc:opendocument:xmlns:presentation:1.0",
    "number": "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0",
    "chart": "urn:oasis:names:tc:opendocument:xmlns:chart:1.0",
    "svg": "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0",
    "config": "urn:oasis:names:tc:opendocument:xmlns:config:1.0",
    "of": "urn:oasis:names:tc:opendocument:xmlns:of:1.2",       # used in values only
    "msoxl": "http://schemas.microsoft.com/office/excel/formula",
}
DECL = " ".join('xmlns:%s="%s"' % kv for kv in sorted(NS.items()))

MIME = {
    "odt": "text", "ott": "text-template", "odg": "graphics", "otg": "graphics-template",
    "odp": "presentation", "otp": "presentation-template", "ods": "spreadsheet",
    "ots": "spreadsheet-template", "odc": "chart", "otc": "chart-template",
    "odi": "image", "oti": "image-template", "odf": "formula", "otf": "formula-template",
    "odm": "text-master", "oth": "text-web",
}
MIME = {k: "application/vnd.oasis.opendocument." + v for k, v in MIME.items()}
BODY = {
    "odt": "text", "ott": "text", "odg": "drawing", "otg": "drawing",
    "odp": "presentation", "otp": "presentation", "ods": "spreadsheet",
    "ots": "spreadsheet", "odc": "chart", "otc": "chart", "odi": "image", "oti": "image",
    "odm": "text", "oth": "text",
}


def q(tag):
    """'text:p' -> Clark notation."""
    p, l = tag.split(":")
    return "{%s}%s" % (NS[p], l)


def local(node):
    """Prefix notation of a node's tag (or '?' for comments)."""
    if not isinstance(node.tag, str):
        return "?"
    uri, l = node.tag[1:].split("}") if node.tag[0] == "{" else ("", node.tag)
    for p, u in NS.items():
        if u == uri:
            return p + ":" + l
    return "{%s}%s" % (uri, l)


def xml(text):
    """Parse a fragment in prefix notation to a free-standing element."""
    i = text.index(">")
    if text[i - 1] == "/":
        i -= 1
    return etree.fromstring(text[:i] + " " + DECL + text[i:])


def tree(node, skip=()):
    """Canonical nested tuple of an element, whitespace text kept."""
    return (node.tag if isinstance(node.tag, str) else "?",
            tuple(sorted((k, v) for k, v in node.attrib.items() if k not in skip)),
            node.text or "",
            tuple((tree(c, skip), c.tail or "") for c in node))


PREFIX = re.compile(r"([A-Za-z_][\w.-]*):")


def prefixes(node):
    """Meaning of the prefixes used in attribute values: {(attribute, prefix): uri}."""
    out = {}
    for k, v in node.attrib.items():
        m = PREFIX.match(v)
        if m:
            uri = node.nsmap.get(m.group(1))
            if uri is not None:
                out[k, m.group(1)] = uri
    return out


def content_xml(bodytag, inner, autostyles=""):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<office:document-content %s office:version="1.2"><office:scripts/>'
            '<office:font-face-decls/><office:automatic-styles>%s</office:automatic-styles>'
            '<office:body><office:%s>%s</office:%s></office:body>'
            '</office:document-content>'
            % (DECL, autostyles, bodytag, inner, bodytag)).encode("utf-8")


def styles_xml(inner=""):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<office:document-styles %s office:version="1.2"><office:font-face-decls/>'
            '<office:styles>%s</office:styles><office:automatic-styles/>'
            '<office:master-styles/></office:document-styles>' % (DECL, inner)).encode("utf-8")


def meta_xml(inner=""):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<office:document-meta %s office:version="1.2"><office:meta>%s</office:meta>'
            '</office:document-meta>' % (DECL, inner)).encode("utf-8")


def manifest_xml(mime, names, types=None):
    types = types or {}
    esc = lambda n: (n.replace("&", "&amp;").replace("<", "&lt;")  # noqa
                     .replace('"', "&quot;"))
    ent = ['<manifest:file-entry manifest:full-path="/" manifest:media-type="%s"/>' % mime]
    for n in names:
        ent.append('<manifest:file-entry manifest:full-path="%s" manifest:media-type="%s"/>'
                   % (esc(n), types.get(n, "text/xml" if n.endswith(".xml") else "")))
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<manifest:manifest %s>%s'
            '</manifest:manifest>' % (DECL, "".join(ent))).encode("utf-8")


def package(ext, inner="", members=(), meta="", styles="", mimetype=True, manifest_root=True,
            parts=("meta.xml", "styles.xml", "content.xml"), autostyles="", order=None,
            listed=()):
    """Bytes of a package; members: (name, bytes, compressed) triples."""
    mime = MIME[ext]
    files = []
    if mimetype:
        files.append(("mimetype", mime.encode(), False))
    if "content.xml" in parts:
        files.append(("content.xml", content_xml(BODY[ext], inner, autostyles), True))
    if "styles.xml" in parts:
        files.append(("styles.xml", styles_xml(styles), True))
    if "meta.xml" in parts:
        files.append(("meta.xml", meta_xml(meta), True))
    files += list(members)
    names = [f[0] for f in files if f[0] != "mimetype"]
    man = manifest_xml(mime, names + list(listed), {"mimetype": "text/plain"})
    if not manifest_root:
        man = man.replace(('<manifest:file-entry manifest:full-path="/" '
                           'manifest:media-type="%s"/>' % mime).encode(), b"")
    files.append(("META-INF/manifest.xml", man, True))
    if order == "reversed":
        files = files[:1] + files[:0:-1] if mimetype else files[::-1]
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for name, data, comp in files:
            zi = zipfile.ZipInfo(name, (2011, 2, 3, 4, 5, 6))
            zi.compress_type = zipfile.ZIP_DEFLATED if comp else zipfile.ZIP_STORED
            z.writestr(zi, data)
    return buf.getvalue()


def members(data):
    """[(name, compress_type, bytes)] of a package given as bytes."""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(i.filename, i.compress_type, z.read(i)) for i in z.infolist()]


def part(data, name):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return z.read(name)


def app_body(data):
    """The application body element of a package given as bytes."""
    root = etree.fromstring(part(data, "content.xml"))
    return root.find(q("office:body"))[0]


def check_package(data, mime):
    """Independent well-formedness check of an ODF package; returns problems."""
    bad = []
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        if z.testzip() is not None:
            return ["corrupt member %s" % z.testzip()]
    except Exception as e:
        return ["not a zip file: %s" % e]
    infos = z.infolist()
    names = [i.filename for i in infos]
    if not names or names[0] != "mimetype":
        bad.append("first member is %r, not mimetype" % names[:1])
    else:
        if infos[0].compress_type != zipfile.ZIP_STORED:
            bad.append("mimetype is compressed")
        if data[30:38 + len(mime)] != b"mimetype" + mime.encode():
            bad.append("mimetype is not at byte 30/38 of the file")
        if z.read("mimetype") != mime.encode():
            bad.append("mimetype is %r" % z.read("mimetype"))
    dup = sorted({n for n in names if names.count(n) > 1})
    if dup:
        bad.append("duplicate members %r" % dup)
    for n in ("META-INF/manifest.xml", "content.xml", "styles.xml", "meta.xml"):
        if n not in names:
            bad.append("member %s is missing" % n)
    for n in set(names):
        if n in ("content.xml", "styles.xml", "meta.xml", "META-INF/manifest.xml"):
            try:
                etree.fromstring(z.read(n))
            except Exception as e:
                bad.append("%s is not well-formed: %s" % (n, e))
    if "META-INF/manifest.xml" in names and not bad:
        man = etree.fromstring(z.read("META-INF/manifest.xml"))
        ent = [(e.get(q("manifest:full-path")), e.get(q("manifest:media-type"))) for e in man]
        paths = [p for p, _ in ent]
        dup = sorted({p for p in paths if paths.count(p) > 1})
        if dup:
            bad.append("duplicate manifest entries %r" % dup)
        if dict(ent).get("/") != mime:
            bad.append("manifest root media-type is %r" % dict(ent).get("/"))
        for n in names:
            if n in ("mimetype", "META-INF/manifest.xml") or n.endswith("/"):
                continue
            if n.startswith("META-INF/"):
                continue
            if n not in paths:
                bad.append("member %s is not listed in the manifest" % n)
        for n in ("content.xml", "styles.xml", "meta.xml"):
            if dict(ent).get(n) != "text/xml":
                bad.append("media type of %s is %r" % (n, dict(ent).get(n)))
        for p in paths:
            if p and not p.endswith("/") and p not in names:
                bad.append("manifest lists %s, which is not in the package" % p)
    return bad


def flat(meta, ext="odt", body=""):
    """A single-XML-file document as bytes (meta None: without office:meta)."""
    m = "<office:meta>%s</office:meta>" % meta if meta is not None else ""
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<office:document %s office:mimetype="%s" '
            'office:version="1.2">%s<office:body><office:%s>%s</office:%s></office:body>'
            '</office:document>' % (DECL, MIME[ext], m, BODY[ext], body,
                                    BODY[ext])).encode("utf-8")


def open_any(data):
    """ezodf document from bytes; single-XML-file documents go through a file."""
    import ezodf
    if data[:2] == b"PK":
        return ezodf.opendoc(data)
    import tempfile
    with tempfile.NamedTemporaryFile(suffix=".fodt") as f:
        f.write(data)
        f.flush()
        return ezodf.opendoc(f.name)


def replace_member(data, name, new):
    """The package with the content of one member replaced (None: removed)."""
    buf = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(data)) as src, zipfile.ZipFile(buf, "w") as z:
        for i in src.infolist():
            if i.filename != name:
                z.writestr(i, src.read(i))
            elif new is not None:
                z.writestr(i, new)
    return buf.getvalue()
