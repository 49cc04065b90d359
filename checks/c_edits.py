"""Edits of every kind followed by saves: what an open document holds is what
a save writes and what a reopened document holds."""
import io
import os

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, Paragraph, Section, Span, Table, ezlist)
from ezodf.xmlns import wrap

from lib import odf
from lib.mc import Machine, Skip, need, same, scratch_dir
from lib.odf import q

STAMPS = [q("dc:date"), q("meta:generator"), q("meta:editing-cycles")]

VARS = ('<text:variable-decls><text:variable-decl text:name="v" office:value-type="float"/>'
        '</text:variable-decls><text:user-field-decls><text:user-field-decl text:name="u" '
        'office:value-type="string" office:string-value="0"/></text:user-field-decls>')
TEXT = (VARS + '<text:p text:style-name="P1">one <text:variable-set text:name="v" '
        'office:value-type="float" office:value="1">1</text:variable-set> two '
        '<text:user-field-get text:name="u">0</text:user-field-get> '
        '<text:variable-get text:name="v">1</text:variable-get></text:p>'
        '<text:h text:outline-level="1">head</text:h>'
        '<text:list><text:list-item><text:p>item</text:p></text:list-item></text:list>')
SHEET = (VARS + '<table:table table:name="A" table:style-name="ta"><table:table-column '
         'table:number-columns-repeated="2" table:style-name="co"/><table:table-row '
         'table:style-name="ro"><table:table-cell office:value-type="float" office:value="1" '
         'table:formula="of:=1" '
         'table:style-name="ce"><text:p>1</text:p></table:table-cell><table:table-cell '
         'office:value-type="string"><text:p>x</text:p></table:table-cell></table:table-row>'
         '<table:table-row table:number-rows-repeated="2"><table:table-cell '
         'table:number-columns-repeated="2"/></table:table-row></table:table>'
         '<table:table table:name="B"><table:table-column/><table:table-row><table:table-cell/>'
         '</table:table-row></table:table>')
STYLES = ('<style:style style:name="S" style:family="paragraph"/>'
          '<style:style style:name="T" style:family="text"/>')
META = ('<dc:title>title</dc:title><meta:keyword>k</meta:keyword><meta:user-defined '
        'meta:name="n" meta:value-type="float">1.5</meta:user-defined>'
        '<meta:document-statistic meta:page-count="3"/>')


class St(object):
    pass


def sheet(st):
    if not len(st.doc.sheets):
        raise Skip()
    return st.doc.sheets[0]


def cell(st):
    t = sheet(st)
    if not t.nrows() or not t.ncols():
        raise Skip()
    c = t[0, 0]
    if c.covered:
        raise Skip()
    return c


def par(st):
    for n in st.doc.body:
        if n.kind in ("Paragraph", "Heading"):
            return n
    raise Skip()


def common(st, k):
    """Edits of every document; False: not one of these."""
    doc, n = st.doc, st.n
    if k == "title":
        doc.meta["title"] = " t  %d\n<&>\xe4 " % n
    elif k == "keyword":
        doc.meta.keywords.add(" key\t%d " % n)
    elif k == "unkeyword":
        for w in list(doc.meta.keywords)[:1]:
            doc.meta.keywords.remove(w)
    elif k == "tag":
        doc.meta.usertags.set("m %d" % n, "  v\n\t%d  " % n, "string")
    elif k == "retag":
        doc.meta.usertags["n"] = "%d" % n
    elif k == "count":
        doc.meta.count["page"] = n
        doc.meta.count["word"] = 0
    elif k == "style":
        doc.inject_style('<style:style style:name="N%d" style:family="text"/>' % n)
    elif k == "restyle":
        doc.styles.styles["S"]["display-name"] = "name %d" % n
        doc.styles.styles["S"]["next-style-name"] = "T"
    elif k == "setstyle":
        doc.styles.styles["T"] = wrap(odf.xml(
            '<style:style style:name="T" style:family="text" style:class="c%d"/>' % n))
    elif k == "autostyle":
        doc.content.automatic_styles["P%d" % n] = wrap(odf.xml(
            '<style:style style:name="P%d" style:family="text"/>' % n))
    elif k == "variable":
        doc.body.variables["v"].type = "string"
        for i in doc.body.variables["v"].instances:
            i.value = "v %d" % n
    elif k == "field":
        doc.body.userfields["u"].value = (n, "x %d" % n, True)[n % 3]
    else:
        return False
    return True


COMMON = ("title", "keyword", "unkeyword", "tag", "retag", "count", "style", "restyle",
          "setstyle", "autostyle", "variable", "field")


def sheets(st, k):
    n = st.n
    if k == "value":
        cell(st).set_value((n, "  text %d\n\tx " % n, True, 0)[n % 4])
    elif k == "typed":
        cell(st).set_value(*((n, "percentage"), ("2012-01-0%d" % (n % 9 + 1), "date"),
                             ("PT0%dH" % (n % 9), "time"), (n, "currency", "EUR"))[n % 4])
    elif k == "cattr":
        c = cell(st)
        c.style_name, c.formula, c.protected = "ce%d" % n, "of:=1+%d" % n, n % 2 == 0
    elif k == "display":
        c = cell(st)
        if c.value_type in (None, "string"):
            raise Skip()
        c.display_form = "shown %d" % n
    elif k == "append":
        c = cell(st)
        if c.value_type != "string":
            raise Skip()
        c.append_text(" more  %d" % n, "Sty")
    elif k == "newcell":
        cell(st)
        sheet(st)[0, 0] = Cell("new %d" % n, style_name="cs")
    elif k == "rows":
        sheet(st).insert_rows(0, n % 2 + 1)
    elif k == "delrow":
        t = sheet(st)
        if t.nrows() < 2:
            raise Skip()
        t.delete_rows(0)
    elif k == "cols":
        sheet(st).append_columns(2)
    elif k == "span":
        t = sheet(st)
        if t.nrows() < 2 or t.ncols() < 2 or any(
                t[r, c].covered or t[r, c].span != (1, 1) for r in (0, 1) for c in (0, 1)):
            raise Skip()
        t.set_cell_span((0, 0), (2, 2))
    elif k == "unspan":
        t = sheet(st)
        if not t.nrows() or t[0, 0].covered:
            raise Skip()
        t.remove_cell_span((0, 0))
    elif k == "info":
        t = sheet(st)
        if not t.nrows():
            raise Skip()
        t.row_info(0).style_name = "r%d" % n
        t.column_info(0).visibility = "collapse"
        t.style_name = "t%d" % n
    elif k == "sheet":
        st.doc.sheets.append(Table("new %d" % n, size=(1, 1)))
    elif k == "delsheet":
        sheet(st)
        del st.doc.sheets[0]
    elif k == "copy":
        st.doc.sheets.insert(0, sheet(st).copy("copy %d" % n))
    elif k == "name":
        sheet(st).name = " name  %d " % n
    elif k == "reset":
        sheet(st).reset(size=(2, 2))
    elif k == "clear":
        sheet(st).clear()


SHEETS = ("value", "typed", "cattr", "display", "append", "newcell", "rows", "delrow", "cols",
          "span", "unspan", "info", "sheet", "delsheet", "copy", "name", "reset", "clear")


def text(st, k):
    n, body = st.n, st.doc.body
    if k == "par":
        body.append(Paragraph("  p %d \t\n" % n, style_name="P%d" % n))
    elif k == "heading":
        body.append(Heading("h %d" % n, n % 4 + 1))
    elif k == "list":
        body.append(ezlist(["a", " b "], "hdr", "L1"))
    elif k == "section":
        s = Section("s%d" % n)
        s.append(Paragraph("in"))
        s.protected = True
        body.append(s)
        st.protected = True
    elif k == "extend":
        par(st).append_text("\t %d  x" % n)
    elif k == "span":
        p = par(st)
        p.append(Span("s ", "st"))
        p.append(Span(" s%d" % n))
        p[-1].tail = "  tail "
    elif k == "link":
        par(st).append(Hyperlink("http://x/?a=1&b=%d" % n, "link", "st"))
    elif k == "insert":
        body.insert_before(par(st), Paragraph("before %d" % n))
    elif k == "remove":
        body.remove(par(st))
    elif k == "attrs":
        p = par(st)
        p.style_name = "Q%d" % n
        if p.kind == "Paragraph":
            p.cond_style_name = "C"
        else:
            p.outline_level = 3
    elif k == "settext":
        par(st).text = " a  b\n\tc %d " % n
    elif k == "table":
        t = Table("in text %d" % n, size=(2, 2))
        t["A1"].set_value(1.5)
        body.append(t)


TEXTS = ("par", "heading", "list", "section", "extend", "span", "link", "insert", "remove",
         "attrs", "settext", "table")
SAVES = ("save", "saveas", "stream", "bytes", "reopen")


def meta_tree(root):
    """The meta data without what every save is meant to change."""
    m = root if root.tag == q("office:meta") else root.find(q("office:meta"))
    return [(odf.tree(c), c.tail or "") for c in m if c.tag not in STAMPS]


def in_memory(doc):
    """Everything an open document holds."""
    if hasattr(doc, "content"):
        return {"content": odf.tree(doc.content.xmlnode), "styles": odf.tree(doc.styles.xmlnode),
                "meta": meta_tree(doc.meta.xmlnode), "prefixes": prefixes(doc.content.xmlnode)}
    return {"root": flat_tree(doc.xmlnode), "meta": meta_tree(doc.xmlnode),
            "prefixes": prefixes(doc.xmlnode)}


def prefixes(root):
    """The meaning of prefixes in attribute values, in document order."""
    return [p for p in (sorted(odf.prefixes(n).items()) for n in root.iter()
                        if isinstance(n.tag, str)) if p]


def flat_tree(root):
    return (root.tag, tuple(sorted(root.attrib.items())),
            tuple(odf.tree(c) for c in root if c.tag != q("office:meta")))


def in_file(data):
    if data[:2] == b"PK":
        p = {n: etree.fromstring(odf.part(data, n + ".xml")) for n in ("content", "styles", "meta")}
        return {"content": odf.tree(p["content"]), "styles": odf.tree(p["styles"]),
                "meta": meta_tree(p["meta"]), "prefixes": prefixes(p["content"])}
    root = etree.fromstring(data)
    return {"root": flat_tree(root), "meta": meta_tree(root), "prefixes": prefixes(root)}


def detached(node):
    """A wrapped copy (looking at a table expands it)."""
    return wrap(etree.fromstring(etree.tostring(node, with_tail=False)))


def shown(doc):
    """What the interface of the library shows."""
    m = doc.meta
    out = [sorted(m.keywords), sorted(m.usertags), sorted(m.count), doc.mimetype, doc.doctype]
    for k in ("title", "creator", "subject"):
        try:
            out.append(m[k])
        except KeyError:
            out.append(None)
    out += [(v.name, v.type, [(i.value, i.type) for i in v.instances]) for v in doc.body.variables]
    out += [(v.name, v.type, v.value, [i.text for i in v.instances]) for v in doc.body.userfields]
    out += [(n.kind, n.plaintext(), getattr(n, "style_name", None))
            for n in map(detached, doc.body.xmlnode)]
    if hasattr(doc, "sheets"):
        for t in map(detached, doc.body.xmlnode.findall(q("table:table"))):
            out.append((t.name, t.style_name, t.nrows(), t.ncols(),
                        [[(c.value, c.value_type, c.currency, c.formula, c.style_name, c.span,
                           c.covered, c.plaintext()) for c in r] for r in t.rows()],
                        [(r.style_name, r.visibility) for r in
                         (t.row_info(i) for i in range(t.nrows()))]))
    return out


def compare(what, got, want):
    same(what + ": parts", sorted(got), sorted(want))
    for k in sorted(want):
        if got[k] != want[k]:
            need(False, "%s: %s differs: %s", what, k, first_difference(got[k], want[k]))


def first_difference(a, b, path=""):
    if type(a) == type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, "%s/%d" % (path, i))
    return "at %s got %s, expected %s" % (path, repr(a)[:300], repr(b)[:300])


class Edits(Machine):
    name = "edits"

    def configs(self, tier):
        if tier == "quick":
            return [(("odt", "path", "all"), 2, False), (("ods", "path", "all"), 2, False),
                    (("odt", "flat", "all"), 2, False), (("ods", "flat", "few"), 2, False),
                    (("odt", "stream", "few"), 3, False), (("ods", "path", "few"), 3, False),
                    (("odt", "new", "all"), 2, False), (("ods", "new", "all"), 2, False),
                    (("ods", "template", "all"), 2, False), (("odt", "bytes", "few"), 2, False)]
        deep = [("odt", "path"), ("ods", "path"), ("odt", "stream"), ("ods", "template")]
        return [((e, s, "all"), 3 if (e, s) in deep else 2, False) for e in ("odt", "ods") for s in
                ("path", "flat", "stream", "new", "template", "bytes")] + \
            [((e, s, "few"), 4 if (e, s) in deep else 3, False) for e in ("odt", "ods")
             for s in ("path", "flat")]

    def ops(self, cfg):
        ext, src, which = cfg
        special = TEXTS if ext == "odt" else SHEETS
        if which == "few":
            return ["tag", "restyle", "field", "count"] + \
                (["par", "extend", "section"] if ext == "odt" else ["value", "rows", "span"]) + \
                list(SAVES)
        return list(COMMON + special + SAVES)

    def init(self, cfg):
        ext, src, which = cfg
        st = St()
        st.cfg, st.n = cfg, 0
        st.special = text if ext == "odt" else sheets
        st.dir = scratch_dir()
        st.path = os.path.join(st.dir, "a." + ext)
        body = TEXT if ext == "odt" else SHEET
        if src == "new":
            st.doc = ezodf.newdoc(ext, st.path)
            st.at = st.path
            if ext == "ods":
                st.doc.sheets.append(Table("A", size=(2, 2)))
            return st
        if src == "flat":
            data = odf.flat(META, ext, body)
        else:
            data = odf.package("ot" + ext[2] if src == "template" else ext, body, meta=META,
                               styles=STYLES)
        with open(st.path, "wb") as f:
            f.write(data)
        if src == "template":
            st.at = os.path.join(st.dir, "n." + ext)
            st.doc = ezodf.newdoc(ext, st.at, template=st.path)
        else:
            st.stream = io.BytesIO(data)
            st.doc = ezodf.opendoc({"stream": st.stream, "bytes": data}.get(src, st.path))
            st.at = st.path if src in ("path", "flat") else None
        return st

    def step(self, st, op):
        st.n += 1
        if op in SAVES:
            return self.save(st, op)
        if st.cfg[1] == "flat" and op in ("style", "restyle", "setstyle", "autostyle"):
            raise Skip()
        if st.cfg[1] == "new" and op in ("retag", "restyle", "variable", "field"):
            raise Skip()
        if not common(st, op):
            st.special(st, op)

    def save(self, st, op):
        if op == "reopen":
            if st.at is None or not os.path.exists(st.at):
                raise Skip()
            st.doc = ezodf.opendoc(st.at)
            return
        before, dump = in_memory(st.doc), shown(st.doc)
        if op == "save":
            if st.at is None:
                raise Skip()
            st.doc.save()
            with open(st.at, "rb") as f:
                data = f.read()
        elif op == "saveas":
            st.at = os.path.join(st.dir, "b." + st.cfg[0])
            st.doc.saveas(st.at)
            with open(st.at, "rb") as f:
                data = f.read()
        elif op == "stream":
            sink = io.BytesIO(b"old content" * 1000)
            st.doc.saveas(sink)
            st.at = None
            data = sink.getvalue()
        else:
            data = st.doc.tobytes()
        compare("the open document after " + op, in_memory(st.doc), before)
        compare("written by " + op, in_file(data), before)
        same("the open document after " + op, shown(st.doc), dump)
        again = odf.open_any(data)
        compare("reopened after " + op, in_memory(again), before)
        same("reopened after " + op, shown(again), dump)

    def observe(self, st):
        self.save(st, "bytes")
        if st.at is not None:
            self.save(st, "save")
        self.save(st, "stream")
        self.save(st, "saveas")
        self.save(st, "save")

    def canon(self, st):
        return repr(in_memory(st.doc))


# ---------------------------------------------------------------- pairs of documents (P22)

def start(cfg):
    return Edits().init(cfg)


def options(doc):
    """Plain settings of a document (no documents parts)."""
    out = {k: getattr(doc, k) for k in ("docname", "backup", "mimetype", "doctype")}
    if isinstance(out["docname"], str):
        out["docname"] = os.path.basename(out["docname"])
    elif out["docname"] is not None:
        out["docname"] = "stream"
    return out


def snapshot(st):
    return in_memory(st.doc), shown(st.doc), options(st.doc)


# changes of the settings of a document
SETTINGS = {
    "nobackup": lambda st: setattr(st.doc, "backup", False),
    "docname": lambda st: setattr(st.doc, "docname", os.path.join(st.dir, "other." + st.cfg[0])),
    "clear-meta": lambda st: st.doc.meta.clear(),
    "clear-tags": lambda st: (st.doc.meta.usertags.clear(), st.doc.meta.keywords.clear()),
    "generator": lambda st: st.doc.meta.__setitem__("generator", "me"),
    "member": lambda st: st.doc.filemanager.register("x/y.bin", b"y", "x/y"),
    "clear-body": lambda st: [st.doc.body.remove(n) for n in list(st.doc.body)
                              if n.kind in ("Paragraph", "Table")],
}


def pair_op(st, op):
    """False: not possible for this document."""
    if op in SETTINGS:
        if op == "member" and st.cfg[1] == "flat":
            return False
        SETTINGS[op](st)
        return True
    try:
        Edits().step(st, op)
    except Skip:
        return False
    return True


def pair_cases(tier):
    quick = tier == "quick"
    kinds = [("odt", "path"), ("ods", "path"), ("odt", "new"), ("ods", "new"), ("odt", "flat"),
             ("ods", "flat"), ("odt", "template"), ("ods", "stream"), ("ods", "bytes")]
    for a in kinds:
        ops = COMMON + (TEXTS if a[0] == "odt" else SHEETS) + SAVES + tuple(sorted(SETTINGS))
        for b in kinds:
            if quick and a[0] != b[0] and a[1] != b[1]:
                continue
            for op in ops:
                for op2 in (("same", "save") if quick else
                            ("same", "save", "title", "tag", "style", "field", "bytes")):
                    yield (a, b, op, op2)


_ALONE = {}


def alone(b, op2, op):
    """What document b shows at first and after its own operation without
    another document having been changed before."""
    key = (b, op if op2 == "same" else op2)
    if key not in _ALONE:
        st = start(b + ("all",))
        first = snapshot(st)
        st.n = 5
        ok = pair_op(st, key[1])
        _ALONE[key] = first, ok, snapshot(st), backups(st)
    return _ALONE[key]


def backups(st):
    """What saving writes into the folder of the document."""
    st.doc.docname = os.path.join(st.dir, "s." + st.cfg[0])
    for k in range(2):
        st.doc.save()
    return sorted(f for f in os.listdir(st.dir) if f.startswith("s."))


def strip(snap):
    """Without the meta data that contain times."""
    stamps = {q("meta:creation-date")}
    mem = {k: [x for x in v if x[0][0] not in stamps] if k == "meta" else v
           for k, v in snap[0].items()}
    return (unkeyed(mem),) + snap[1:]


def unkeyed(x):
    """Without random protection keys."""
    if isinstance(x, dict):
        return {k: unkeyed(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and isinstance(x[0], str) and x[0].endswith("}protection-key"):
            return (x[0], "key")
        return type(x)(unkeyed(i) for i in x)
    return x


def pair_run(case):
    """An edit of one document changes nothing another one shows or does."""
    a, b, op, op2 = case
    want, ok, after, files = alone(b, op2, op)
    x, y = start(a + ("all",)), start(b + ("all",))
    same("a new document", strip(snapshot(y)), strip(want))
    x.n = 2
    pair_op(x, op)
    same("the other document after " + op, strip(snapshot(y)), strip(want))
    z = start(b + ("all",))
    same("a document created after " + op, strip(snapshot(z)), strip(want))
    for name, st in (("the other", y), ("the new", z)):
        st.n = 5
        same("operation on %s document" % name, pair_op(st, op if op2 == "same" else op2), ok)
        same("%s document after its own operation" % name, strip(snapshot(st)), strip(after))
        same("files of %s document" % name, backups(st), files)
    return case
