"""Unusual values: every text and number of a fixed set at every place which
takes a text or a number, alone and in pairs, also after saving and reopening."""
import itertools
import os

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, Paragraph, Section, Span, Table)
from ezodf.base import GenericWrapper
from ezodf.drawingpage import DrawingPage
from ezodf.xmlns import wrap

from lib import odf
from lib.mc import Cases, need, rejected, same, scratch
from lib.odf import q, xml

TEXTS = ["it's", 'a"b', "a'b\"c'", "[1]", "a]b[", "a/b", "..", "{x}", "{}", "%s %d", "%", "\\n\\",
         "None", "0", "1", "-1", "1.0", "01", "true", "False", "A1", "$A$1:B", "a:b", "x b", "&amp;",
         "<p>&", "]]>", "\xe4\xf6\xfc", "\u65e5\u672c", "\U0001F600", "e\u0301", "\xe9", "x" * 300,
         "a,b;c", "a.b", "a.b.c", "#", "=1", "@x", "*", "?", "a|b", "(a)", "^$", "+1", "~", "nan", "inf",
         "1e5", "TRUE", "mimetype", "\u212b", "\xdf", "SS", "\u0130"]
NUMS = [0.1 + 0.2, 1 / 3.0, 2 / 3.0, 1234567.25, 123456789, 0.0001, 1e-7, 1.5e-300, 5e-324, 1e15, 1e16, 1e22,
        1.7976931348623157e308, -0.1, -1e-5, 99999999.99, 2 ** 31, 2 ** 53, -2 ** 63, 100, 1000000,
        123456.7890123, 1e5, 1e100, 4.35, 1.005, 17.0, 1e3]


def pick(tier):
    """Indices of the texts which are combined with each other."""
    few = sorted(set(range(0, len(TEXTS), 4)) | {TEXTS.index(t) for t in (
        "it's", "\xe9", "e\u0301", "1", "01")})
    return few if tier == "quick" else range(len(TEXTS))


def other_texts(t):
    """Texts which are similar to `t`."""
    out = [t + "x", "x" + t, t.swapcase(), t.replace("'", ""), t.replace('"', ""), t[:-1], t + "'",
           t.replace("&", "").replace("<", ""), t.encode("ascii", "ignore").decode()]
    return [o for o in dict.fromkeys(out) if o and o != t]


def texts(tier):
    return [(i,) for i in range(len(TEXTS))]


# ---------------------------------------------------------------- cells

def cell_cases(tier):
    for i in range(len(TEXTS)):
        for how in ("new", "set", "append", "display", "currency", "formula", "style_name",
                    "content_validation_name"):
            yield (how, i)
    for i in range(len(NUMS)):
        for t in (None, "float", "percentage", "currency"):
            for how in ("new", "set", "again"):
                yield (how, i, t)


def cell_run(case):
    how, i = case[:2]
    c, old = Cell(5, "currency", "EUR"), Cell(5, "currency", "EUR")
    want = ("currency", 5.0, "EUR", "")
    if len(case) == 3:
        v, t = NUMS[i], case[2]
        cur = "EUR" if t == "currency" else None
        if how == "new":
            c = Cell(v, t, cur)
        else:
            c.set_value(v, t, cur)
            if how == "again":
                c.set_value(c.value, t, cur)
        want = (t or "float", float(v), cur, "")
    else:
        t = TEXTS[i]
        if how == "new":
            c = Cell(t)
        elif how == "set":
            c.set_value(t)
        elif how == "append":
            c.set_value("y")
            c.append_text(t)
        elif how == "display":
            c.display_form = t
            want = want[:3] + (t,)
        elif how == "currency":
            c.set_value(7, currency=t)
            want = ("currency", 7.0, t, "")
        else:
            setattr(c, how, t)
        if how in ("new", "set", "append"):
            t = "y" + t if how == "append" else t
            want = ("string", t, None, t)
    got = lambda c: (c.value_type, c.value, c.currency, c.plaintext(),  # noqa
                     c.formula, c.style_name, c.content_validation_name)
    want += tuple(TEXTS[i] if how == p else None for p in ("formula", "style_name",
                                                           "content_validation_name"))
    same("the cell", got(c), want)
    doc = ezodf.newdoc("ods")
    doc.sheets.append(Table("T", size=(2, 2)))
    doc.sheets[0]["B1"] = c
    same("the cell in a table", got(doc.sheets[0]["B1"]), want)
    doc = ezodf.opendoc(doc.tobytes())
    same("the saved cell", got(doc.sheets[0]["B1"]), want)
    same("another cell", got(old), ("currency", 5.0, "EUR", "", None, None, None))
    return case


# ---------------------------------------------------------------- sheets, pages

def name_cases(tier):
    for ext in ("ods", "odp", "odg"):
        for i in range(len(TEXTS)):
            yield (ext, i, "similar")
        for i, j in itertools.permutations(pick(tier), 2):
            yield (ext, i, j)


def name_run(case):
    ext, i, j = case
    a = TEXTS[i]
    others = other_texts(a) if j == "similar" else [TEXTS[j]]
    doc = ezodf.newdoc(ext)
    new = (lambda n: Table(n, size=(1, 1))) if ext == "ods" else DrawingPage

    def read(n):
        got = new(n).name
        if ext != "ods" or (n == n.strip() and not set(n) & set("\t\r\n'\"")):
            same("name", got, n)
        return got
    names = [read(o) for o in others] + [read(a)]
    names = [n for k, n in enumerate(names) if n and n not in names[:k]]
    coll = lambda d: d.sheets if ext == "ods" else d.pages  # noqa
    for n in names:
        coll(doc).append(new(n))
    for d in (doc, ezodf.opendoc(doc.tobytes())):
        c = coll(d)
        same("names", list(c.names()), names)
        for k, n in enumerate(names):
            same("index of %r" % n, c.index(c[n]), k)
            same("name", c[n].name, n)
        last = names[-1]
        repl = new("N")
        c[last] = repl
        same("after replacing %r" % last, list(c.names()), names[:-1] + ["N"])
        rejected("[%r]" % last, lambda: c[last])
        rejected("del [%r]" % last, lambda: c.__delitem__(last))
        c["N"].name = last
        same("after renaming", list(c.names()), names)
        del c[last]
        same("after deleting %r" % last, list(c.names()), names[:-1])
        if len(names) > 1:
            del c[names[0]]
            same("after deleting %r" % names[0], list(c.names()), names[1:-1])
    return names


def copy_run(case):
    n = TEXTS[case[0]]
    t = Table("T", size=(2, 2))
    t["A1"].set_value(n)
    t.style_name = n
    c = t.copy(n)
    same("the name of the copy", c.name, Table(n, size=(1, 1)).name)
    same("the name of the original", t.name, "T")
    same("content", (c["A1"].value, c.style_name), (n, n))
    t.name = n
    same("default name", t.copy().name, ("CopyOf" + t.name))
    t.clear()
    same("name after clear()", t.name, Table(n, size=(1, 1)).name)
    return c.name


# ---------------------------------------------------------------- meta data

FIELDS = ("title", "description", "subject", "initial-creator", "creator", "creation-date", "date",
          "generator", "language", "editing-cycles")


def meta_cases(tier):
    for i in range(len(TEXTS)):
        for f in FIELDS:
            yield (f, i)


def meta_run(case):
    f, i = case
    v = TEXTS[i]
    doc = ezodf.newdoc("odt")
    for g in FIELDS:
        doc.meta[g] = "7"
    doc.meta[f] = v
    for d in (doc, ezodf.opendoc(doc.tobytes())):
        for g in FIELDS:
            same(g, d.meta[g], v if g == f else "7")
        rejected("meta[%r]" % v, lambda: d.meta[v], KeyError)
        rejected("meta[%r] = x" % v, lambda: d.meta.__setitem__(v, "x"), KeyError)
    return case


def sub_cases(tier):
    for i in range(len(TEXTS)):
        yield ("similar", i)
    for i, j in itertools.permutations(pick(tier), 2):
        yield (j, i)
    for i in (0, 1, 9, 10, 255, 10 ** 6, 2 ** 31, 2 ** 32, 10 ** 12):
        yield ("count", i)


def sub_run(case):
    j, i = case
    doc = ezodf.newdoc("odt")
    m = doc.meta
    if j == "count":
        for k in ("page", "word", "ole-object", "non-whitespace-character"):
            m.count[k] = i
            m.count.update({"cell": i})
        for d in (doc, ezodf.opendoc(doc.tobytes())):
            same("counts", dict(d.meta.count), dict.fromkeys(
                ("page", "word", "ole-object", "non-whitespace-character", "cell"), i))
            same("page", d.meta.count["page"], i)
        return case
    a = TEXTS[i]
    others = other_texts(a) if j == "similar" else [TEXTS[j]]
    for n in others:
        m.keywords.add(n)
        m.usertags[n] = n + "!"
    for bad in (a,):
        need(bad not in m.keywords and bad not in m.usertags, "%r is already there", bad)
        m.keywords.remove(bad)
        rejected("usertags[%r]" % bad, lambda: m.usertags[bad], KeyError)
        rejected("count[%r]" % bad, lambda: m.count[bad], KeyError)
    for rnd in (0, 1):
        m.keywords.add(a)
        m.usertags.set(a, a, "string")
    for d in (doc, ezodf.opendoc(doc.tobytes())):
        m = d.meta
        same("keywords", list(m.keywords), others + [a])
        same("tags", list(m.usertags), [(n, n + "!") for n in others] + [(a, a)])
        same("tag", (m.usertags[a], m.usertags.typeof(a)), (a, "string"))
        m.keywords.remove(a)
        del m.usertags[a]
        same("keywords", list(m.keywords), others)
        same("tags", list(m.usertags), [(n, n + "!") for n in others])
    return case


# ---------------------------------------------------------------- variables

PRE = {"sv": "text:variable-", "uf": "text:user-field-"}


def var_doc(kind, names):
    """A document with a declaration and two fields for every name."""
    doc = ezodf.opendoc(odf.package("odt", "<%sdecls/><text:p/>" % PRE[kind]))
    decls, p = doc.body.xmlnode.find(q(PRE[kind] + "decls")), doc.body.xmlnode.find(q("text:p"))
    for n in names:
        d = etree.SubElement(decls, q(PRE[kind] + "decl"))
        d.set(q("text:name"), n)
        d.set(q("office:value-type"), "string")
        if kind == "uf":
            d.set(q("office:string-value"), "old")
        for w in ("set", "get") if kind == "sv" else ("get", "input"):
            f = etree.SubElement(p, q(PRE[kind] + w))
            f.set(q("text:name"), n)
            f.set(q("office:value-type"), "string")
            f.text = "old"
            if w == "set":
                f.set(q("office:string-value"), "old")
    return ezodf.opendoc(doc.tobytes())


def var_look(kind, doc):
    """What the document shows: {name: (value, type, texts of the fields)}."""
    coll = doc.body.variables if kind == "sv" else doc.body.userfields
    out = {}
    for v in coll:
        out[v.name] = (v.value, v.type, [i.value for i in v.instances])
    root, seen = etree.fromstring(odf.part(doc.tobytes(), "content.xml")), {}
    for e in root.iter(q(PRE[kind] + "set"), q(PRE[kind] + "get"), q(PRE[kind] + "input")):
        seen.setdefault(e.get(q("text:name")), []).append(e.text or "")
    for e in root.iter(q(PRE[kind] + "decl"), q(PRE[kind] + "set")):
        a = [e.get(q("office:" + x)) for x in ("value", "string-value", "boolean-value")]
        a = [x for x in a if x is not None]
        if e.tag.endswith("set") or kind == "uf":
            seen[e.get(q("text:name"))] = seen.get(e.get(q("text:name")), []) + a
    return out, seen


def var_cases(kind):
    def cases(tier):
        for i in range(len(TEXTS)):
            yield ("name", i)
            yield ("text", i)
        for i, j in itertools.permutations(pick(tier), 2):
            yield ("pair", i, j)
        for i in range(len(NUMS)):
            yield ("number", i)
        yield ("empty", 0)
        yield ("empty", 1)
    return cases


def var_run(kind):
    def run(case):
        how, i = case[:2]
        name, others, value = "v", ["w"], "new"
        if how == "name":
            name, others = TEXTS[i], other_texts(TEXTS[i])
        elif how == "pair":
            name, others = TEXTS[i], [TEXTS[case[2]]]
        else:
            value = "" if how == "empty" else (TEXTS if how == "text" else NUMS)[i]
        doc = var_doc(kind, others[:1] + [name] + others[1:])
        coll = doc.body.variables if kind == "sv" else doc.body.userfields
        need(name in coll, "%r is missing", name)
        coll[name].value = value
        if how == "empty" and i:        # without the field which keeps the value
            for e in list(doc.body.xmlnode.iter(q("text:variable-set"))):
                if e.get(q("text:name")) == name:
                    e.getparent().remove(e)
            doc = ezodf.opendoc(doc.tobytes())
            coll = doc.body.variables if kind == "sv" else doc.body.userfields
            same("the empty variable", (coll[name].value, coll[name].type), ("", "string"))
            return case
        typ = "string" if isinstance(value, str) else "float"
        for d in (doc, ezodf.opendoc(doc.tobytes())):
            got, texts_ = var_look(kind, d)
            same("names", sorted(got), sorted([name] + others))
            for n in others:
                same("another variable %r" % n, got[n], ("old", "string", ["old"] * 2))
                same("the fields of %r" % n, texts_[n], ["old"] * 3)
            same("the variable %r" % name, got[name], (value, typ, [value] * 2))
            same("the saved values", [t if typ == "string" else float(t) for t in texts_[name]],
                 [value] * 3)
        return case
    return run


# ---------------------------------------------------------------- styles

def style_cases(tier):
    for i in range(len(TEXTS)):
        yield ("name", i)
        yield ("attr", i)
    for i, j in itertools.permutations(pick(tier), 2):
        yield ("pair", i, j)


STYLE_ATTRS = {"display-name": "display-name", "parent-style-name": "parent-style-name",
               "next-style-name": "next-style-name", "list-style-name": "list-style-name",
               "master-page-name": "master-page-name", "data-style-name": "data-style-name",
               "class": "class", "family": "family"}


def new_style(name, mark):
    s = etree.Element(q("style:style"))
    s.set(q("style:name"), name)
    s.set(q("style:class"), mark)
    return wrap(s)


def style_run(case):
    how, i = case[:2]
    doc = ezodf.newdoc("odt")
    containers = lambda d: (d.styles.styles, d.styles.automatic_styles,  # noqa
                            d.content.automatic_styles, d.styles.master_styles)
    if how == "attr":
        v = TEXTS[i]
        s = doc.styles.styles["S"] = new_style("S", "m")
        for k in STYLE_ATTRS:
            s[k] = v
        for d in (doc, ezodf.opendoc(doc.tobytes())):
            s = d.styles.styles["S"]
            for k, a in STYLE_ATTRS.items():
                same("attribute " + k, s[k], v)
                same("attribute in the document", s.xmlnode.get(q("style:" + a)), v)
        return case
    a = TEXTS[i]
    others = other_texts(a) if how == "name" else [TEXTS[case[2]]]
    for c in containers(doc):
        for n in others[:1] + [a] + others[1:]:
            rejected("[%r]" % n, lambda: c[n], KeyError)
            c[n] = new_style(n, "1")
    for rnd, d in enumerate((doc, ezodf.opendoc(doc.tobytes()))):
        for c in containers(d):
            for n in others:
                same("another style", (c[n]["name"], c[n]["class"]), (n, "1"))
            same("the style", (c[a]["name"], c[a]["class"]), (a, "1"))
            c[a] = new_style(a, "2")
            same("the new style", (c[a]["name"], c[a]["class"]), (a, "2"))
            same("order", [e.get(q("style:name")) for e in c.xmlnode], others[:1] + [a] + others[1:])
    return case


# ---------------------------------------------------------------- events

def event_cases(tier):
    for i in range(len(TEXTS)):
        yield ("similar", i)
    for i, j in itertools.permutations(pick(tier), 2):
        yield (j, i)


def event_run(case):
    from ezodf.observer import Observer
    j, i = case
    a = TEXTS[i]
    others = other_texts(a) if j == "similar" else [TEXTS[j]]

    class Listener(object):
        pass
    obs, log, keep = Observer(), [], []
    for n in others + [a]:
        l = Listener()
        for m in others + [a]:      # every listener could handle all events
            setattr(l, "on_%s_handler" % m, lambda msg, n=n, m=m: log.append((n, m, msg)))
        obs.subscribe(n, l)
        keep.append(l)
    for n in others + [a]:
        obs.broadcast(n, msg=n)
        same("received by", log, [(n, n, n)])
        del log[:]
    obs.unsubscribe(a, keep[-1])
    for n in others + [a]:
        obs.broadcast(n, msg=None)
        same("received by", log, [(n, n, None)] if n != a else [])
        del log[:]
    return case


# ---------------------------------------------------------------- elements

def attr_cases(tier):
    for i in range(len(TEXTS)):
        for k in ("attr", "text", "tail", "bool"):
            yield (k, i)


def attr_run(case):
    k, i = case
    v = TEXTS[i]
    w = GenericWrapper(etree.Element("root"))
    c = w.append(GenericWrapper(etree.Element("x")))
    if k == "attr":
        c.set_attr("{urn:x}a", v)
        c.set_attr("b", "z")
    elif k == "bool":
        c.set_attr("{urn:x}a", v)
        same("boolean", c.get_bool_attr("{urn:x}a"), v == "true")
        return case
    elif k == "text":
        c.text = v
    else:
        c.tail = v
    for r in (w, GenericWrapper(etree.fromstring(etree.tostring(w.xmlnode)))):
        c = r[0]
        same("attributes", (c.get_attr("{urn:x}a"), c.get_attr("b", "d"), c.get_attr("{urn:x}b")),
             (v, "z", None) if k == "attr" else (None, "d", None))
        same("text", c.text, v if k == "text" else None)
        same("tail", c.tail, v if k == "tail" else None)
    return case


PROPS = {
    "Heading": (lambda: Heading("x"), ("style_name",)),
    "Paragraph": (lambda: Paragraph("x"), ("style_name", "cond_style_name", "ID")),
    "Span": (lambda: Span("x"), ("style_name",)),
    "Section": (lambda: Section("x"), ("style_name", "name")),
    "Hyperlink": (lambda: Hyperlink("h", "x"), ("style_name", "name", "href", "target_frame")),
    "List": (lambda: ezodf.List(), ("style_name",)),
    "Cell": (lambda: Cell("x"), ("style_name", "formula", "content_validation_name")),
    "Page": (lambda: DrawingPage("x"), ("name",)),
    "Table": (lambda: Table("x", size=(1, 1)), ("style_name",)),
    "Row": (lambda: Table("x", size=(1, 1)).row_info(0), ("style_name", "default_cell_style_name")),
    "Column": (lambda: Table("x", size=(1, 1)).column_info(0), ("style_name",
                                                                "default_cell_style_name")),
}


def prop_cases(tier):
    for n, (_, props) in sorted(PROPS.items()):
        for p in props:
            for i in range(len(TEXTS)):
                yield (n, p, i)
    for n in (0, 1, 9, 10, 11, 99, 100, 255, 10 ** 6, 2 ** 31, 10 ** 12):
        yield ("level", n)


def prop_run(case):
    if case[0] == "level":
        n = case[1]
        h, s = Heading("x"), ezodf.whitespaces.Spaces(1) if hasattr(ezodf, "whitespaces") else None
        h.outline_level = n
        same("outline_level", h.outline_level, max(1, n))
        if hasattr(h, "start_value"):
            h.start_value = n
            same("start_value", h.start_value, max(1, n))
        same("outline_level", Heading("x", n).outline_level, max(1, n))
        if s is not None and n:
            s.count = n
            same("count", s.count, n)
        return case
    n, p, i = case
    make, props = PROPS[n]
    v = TEXTS[i]
    o = make()
    if not hasattr(type(o), p):
        return None
    before = {k: getattr(o, k) for k in props if hasattr(type(o), k)}
    setattr(o, p, v)
    before[p] = v
    for w in (o, wrap(etree.fromstring(etree.tostring(o.xmlnode)))):
        same("properties", {k: getattr(w, k) for k in before}, before)
        same("the value in the document", v in w.xmlnode.attrib.values(), True)
    return case


# ---------------------------------------------------------------- members and files

PATHS = [t for t in TEXTS if t != "mimetype"] + ["a b/c d.png", "Thumbnails/thumbnail.png", "dir/", "./x", "a//b"]


def mani_cases(tier):
    for i in range(len(PATHS)):
        yield (i,)
    for i, j in itertools.permutations(range(0, len(PATHS), 5), 2):
        yield (i, j)


def mani_run(case):
    from ezodf.manifest import Manifest
    a = PATHS[case[0]]
    others = other_texts(a) if len(case) == 1 else [PATHS[case[1]]]
    m = Manifest()
    for n in others:
        m.add(n, "t/" + n)
    need(m.find(a) is None, "%r is already there", a)
    m.remove(a)
    m.add(a)
    m.add(a, a, a)
    want = [(n, "t/" + n, None) for n in others] + [(a, a, a)]
    look = lambda m: [tuple(e.get(q("manifest:" + k)) for k in  # noqa
                            ("full-path", "media-type", "version")) for e in m.xmlnode]
    for x in (m, Manifest(m.tobytes())):
        same("entries", look(x), want)
        same("entry", x.find(a).get(q("manifest:media-type")), a)
        x.remove(a)
        same("entries", look(x), want[:-1])
    return case


def member_cases(tier):
    for i in range(len(PATHS)):
        for how in ("path", "bytes", "stream"):
            yield (how, i)


def member_run(case):
    """A registered member, and a member of the source."""
    how, i = case
    a, b = PATHS[i], "src-" + PATHS[i]
    if a.endswith("/"):
        return None
    data = odf.package("odt", "<text:p>x</text:p>", [(b, b"one \xff", True)])
    with scratch() as folder:
        path = os.path.join(folder, "a.odt")
        with open(path, "wb") as f:
            f.write(data)
        import io
        doc = ezodf.opendoc({"path": path, "bytes": data, "stream": io.BytesIO(data)}[how])
        doc.filemanager.register(a, b"two \xfe", "x/y")
        for rnd in range(2):
            out = os.path.join(folder, "b.odt")
            doc.saveas(out)
            for got in (doc.tobytes(), open(out, "rb").read()):
                bad = odf.check_package(got, doc.mimetype)
                need(not bad, "%s", "; ".join(bad))
                same("members", (odf.part(got, a), odf.part(got, b)), (b"two \xfe", b"one \xff"))
                man = {e.get(q("manifest:full-path")): e.get(q("manifest:media-type")) for e in
                       etree.fromstring(odf.part(got, "META-INF/manifest.xml"))}
                same("media types", (man.get(a), man.get(b)), ("x/y", ""))
            doc = ezodf.opendoc(out)
    return case


FILES = [t for t in TEXTS if "/" not in t and t != ".." and len(t) < 200] + [
    ".odt", "a.odt.odt", "a b.ods", " ", "a.tmp", "x.bak", "b.odt~", "-", "--help", "a\nb.odt", "$HOME.odt"]


def file_cases(tier):
    for i in range(len(FILES)):
        for kind in ("odt", "flat", "bytes", "template"):
            for bak in (True, False):
                yield (kind, i, bak)


def file_run(case):
    """Every file name: the document goes to this file and to no other."""
    kind, i, bak = case
    name = FILES[i]
    with scratch() as folder:
        path = os.path.join(folder, name)
        data = odf.flat("", "odt", "<text:p>x</text:p>") if kind == "flat" else \
            odf.package("ott" if kind == "template" else "odt", "<text:p>x</text:p>")
        if kind == "template":
            with open(path, "wb") as f:
                f.write(data)
            doc = ezodf.newdoc(filename=path + "2", template=path)
            doc.save()
            same("files", sorted(os.listdir(folder)), sorted([name, name + "2"]))
            same("mimetype", ezodf.opendoc(path + "2").mimetype, odf.MIME["odt"])
            need(open(path, "rb").read() == data, "the template was changed")
            return case
        doc = odf.open_any(data)
        doc.backup = bak
        doc.saveas(path)
        same("files", os.listdir(folder), [name])
        if kind == "odt":
            doc = ezodf.opendoc(path)
            doc.backup = bak
        same("docname", doc.docname, path)
        old = open(path, "rb").read()
        doc.body.append(Paragraph("y"))
        doc.save()
        got = sorted(os.listdir(folder))
        keeps = bak and kind != "bytes"
        if keeps or name + ".bak" in got:
            same("files", got, sorted([name, name + ".bak"]))
            need(open(path + ".bak", "rb").read() == old, "the backup is not the old document")
        else:
            same("files", got, [name])
        again = ezodf.opendoc(path)
        same("content", [n.plaintext() for n in again.body if n.kind == "Paragraph"], ["x", "y"])
        need(bak or name + ".bak" not in got, "a backup although it is switched off")
    return case


def flat_run(case):
    """Texts in a document in a single file."""
    v = TEXTS[case[0]]
    with scratch() as folder:
        path = os.path.join(folder, "a.fodt")
        with open(path, "wb") as f:
            f.write(odf.flat("", "odt", "<text:p>x</text:p>"))
        for rnd in range(3):
            doc = ezodf.opendoc(path)
            if not rnd:
                doc.body.append(Paragraph(v, style_name=v))
                doc.meta["title"] = v
                doc.meta.keywords.add(v)
                doc.meta.usertags[v] = v
            else:
                same("content", [n.plaintext() for n in doc.body if n.kind == "Paragraph"], ["x", v])
                same("style name", doc.body[-1].style_name, v)
                same("title", doc.meta["title"], v)
                same("keywords", list(doc.meta.keywords), [v])
                same("tags", list(doc.meta.usertags), [(v, v)])
            doc.save()
    return case


CELLS = Cases("unusual values", cell_cases, cell_run)
NAMES = Cases("unusual names", name_cases, name_run)
COPIES = Cases("unusual names", texts, copy_run)
META = Cases("unusual values", meta_cases, meta_run)
SUBS = Cases("unusual values", sub_cases, sub_run)
VARS = {k: Cases("unusual values", var_cases(k), var_run(k)) for k in ("sv", "uf")}
STYLES = Cases("unusual names", style_cases, style_run)
EVENTS = Cases("unusual names", event_cases, event_run)
ATTRS = Cases("unusual values", attr_cases, attr_run)
PROPERTIES = Cases("unusual values", prop_cases, prop_run)
MANIFEST = Cases("unusual names", mani_cases, mani_run)
MEMBERS = Cases("unusual names", member_cases, member_run)
FILENAMES = Cases("unusual file names", file_cases, file_run)
FLAT = Cases("unusual values", texts, flat_run)
