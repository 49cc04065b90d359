"""Whole documents: packages, preservation, save histories, types, two
documents, single-file documents."""
import gc
import io
import itertools
import os

from lxml import etree

import ezodf
from ezodf import Paragraph, Table
from ezodf.drawingpage import DrawingPage

from checks.c_edits import Edits, pair_cases, pair_run
from checks import domain, fresh, sizes
from lib import odf
from lib.mc import Cases, Check, Machine, Mismatch, Skip, need, same, scratch, scratch_dir
from lib.odf import BODY, MIME, local, q

TYPES = [e for e in sorted(MIME) if e in BODY]          # all but formula documents
PIC = b"\x89PNG\r\n\x1a\n" + bytes(range(256)) * 3


class St(object):
    pass


# ---------------------------------------------------------------- content model

def family(ext):
    return {"spreadsheet": "sheets", "drawing": "pages", "presentation": "pages",
            "text": "text"}.get(BODY[ext], "plain")


def add(doc, fam, text):
    if fam == "sheets":
        t = Table(text, size=(1, 2))
        t[0, 0].set_value(text)
        t[0, 1].set_value(len(text))
        doc.sheets.append(t)
    elif fam == "pages":
        doc.pages.append(DrawingPage(text))
    else:
        doc.body.append(Paragraph(text))


def items(doc, fam):
    """The content as the library shows it."""
    if fam == "sheets":
        return [(t.name, t[0, 0].value) for t in doc.sheets]
    if fam == "pages":
        return [(p.name, p.name) for p in doc.pages]
    return [(n.plaintext(), n.plaintext()) for n in doc.body if n.kind == "Paragraph"]


def change(doc, fam, text):
    """Change the first item."""
    if fam == "sheets":
        doc.sheets[0].name = text
        doc.sheets[0]["A1"].set_value(text)
    elif fam == "pages":
        doc.pages[0].name = text
    else:
        p = [n for n in doc.body if n.kind == "Paragraph"][0]
        p.clear()
        p.append_text(text)


def delete(doc, fam):
    """Delete the last item."""
    if fam == "sheets":
        del doc.sheets[-1]
    elif fam == "pages":
        del doc.pages[-1]
    else:
        p = [n for n in doc.body if n.kind == "Paragraph"][-1]
        doc.body.remove(p)


def raw_items(body, fam):
    """The content of an application body read with lxml only."""
    if fam == "sheets":
        return [(t.get(q("table:name")),
                 t.find(".//" + q("table:table-cell")).findtext(q("text:p")))
                for t in body.findall(q("table:table"))]
    if fam == "pages":
        return [(p.get(q("draw:name")),) * 2 for p in body.findall(q("draw:page"))]
    return [("".join(p.itertext()),) * 2 for p in body.findall(q("text:p"))]


def inner(fam, *texts):
    """Body content for source documents."""
    if fam == "sheets":
        return "".join(
            '<table:table table:name="%s"><table:table-column table:number-columns-repeated="2"/>'
            '<table:table-row><table:table-cell office:value-type="string"><text:p>%s</text:p>'
            '</table:table-cell><table:table-cell/></table:table-row></table:table>' % (t, t)
            for t in texts)
    if fam == "pages":
        return "".join('<draw:page draw:name="%s"/>' % t for t in texts)
    return "".join("<text:p>%s</text:p>" % t for t in texts)


def meta_of(root):
    """(title, keywords, editing cycles) read with lxml only."""
    m = root if root.tag == q("office:meta") else root.find(q("office:meta"))
    return (m.findtext(q("dc:title")), tuple(k.text for k in m.findall(q("meta:keyword"))),
            m.findtext(q("meta:editing-cycles")))


def styles_of(root):
    return tuple(s.get(q("style:name")) for s in root.iterfind(q("office:styles") + "/*"))


# ---------------------------------------------------------------- histories (P03, P05)

SOURCES = ("new", "newfile", "path", "bytes", "stream", "template")


class Histories(Machine):
    """Edit, save, save-as, reopen: one document, two file names, one stream
    and one byte string."""
    OPS = (("add",), ("chg",), ("del",), ("title",), ("save",), ("saveas", "f1"),
           ("saveas", "f2"), ("saveas", "s1"), ("bytes",), ("open", "f1"), ("open", "f2"),
           ("open", "s1"), ("open", "b"))

    REOPEN = True

    def __init__(self, name="histories"):
        self.name = name

    def configs(self, tier):
        out = []
        if tier == "quick":
            out.append((("odt", "path"), 4, False))
            out.append((("odt", "flat"), 3, False))
            for ext in ("odt", "ods", "odp"):
                for src in SOURCES:
                    if (ext, src) != ("odt", "path"):
                        deep = ext == "odt" or (ext, src) in (("ods", "path"), ("odp", "stream"))
                        out.append(((ext, src), 3 if deep else 2, False))
        else:
            deep = [("odt", "path"), ("odt", "stream"), ("odt", "template"), ("odt", "flat"),
                    ("ods", "path"), ("odp", "path")]
            out = [(c, 4, False) for c in deep]
            for ext in TYPES:
                for src in SOURCES:
                    if (ext, src) not in deep:
                        out.append(((ext, src), 3 if src in ("path", "stream") else 2, False))
            for ext in ("ods", "odp"):
                out.append(((ext, "flat"), 3, False))
        return out

    def ops(self, cfg):
        return list(self.OPS)

    def init(self, cfg):
        ext, src = cfg
        st = St()
        st.cfg, st.fam, st.flat = cfg, family(ext), src == "flat"
        st.ext = ext
        st.dir = scratch_dir()
        st.stream = None
        st.files, st.bak = {}, {}
        st.n = 0
        st.mime = MIME[plain_of(ext) if src == "template" else ext]
        empty = {"items": (), "title": None, "keys": (), "cycles": None, "styles": (),
                 "extra": ()}
        given = dict(empty, items=("src", "src2"), title="src title", keys=("k1",), cycles="7",
                     styles=("S0",), extra=(("Pictures/a.png", PIC),))
        data = None
        if src in ("path", "bytes", "stream", "template"):
            tmpl = {"odt": "ott", "ods": "ots", "odp": "otp", "odg": "otg", "odc": "otc",
                    "odi": "oti"}.get(ext, ext) if src == "template" else ext
            data = odf.package(
                tmpl, inner(st.fam, "src", "src2"), members=self.members(),
                meta="<meta:keyword>k1</meta:keyword><dc:title>src title</dc:title>"
                     "<meta:editing-cycles>7</meta:editing-cycles>",
                styles='<style:style style:name="S0" style:family="paragraph"/>')
            st.model = dict(given)
        elif src == "flat":
            data = odf.flat("<meta:keyword>k1</meta:keyword><dc:title>src title</dc:title>"
                            "<meta:editing-cycles>7</meta:editing-cycles>", ext,
                            inner(st.fam, "src", "src2"))
            st.model = dict(given, styles=(), extra=())
        else:
            st.model = dict(empty)
        st.memory = False       # documents opened from memory make no backups
        if src == "new":
            st.doc = ezodf.newdoc(ext)
            st.at = "f0"
            st.doc.docname = self.path(st, "f0")
        elif src == "newfile":
            st.doc = ezodf.newdoc(ext, self.path(st, "f1"))
            st.at = "f1"
        elif src in ("path", "flat"):
            with open(self.path(st, "f1"), "wb") as f:
                f.write(data)
            st.files["f1"] = dict(st.model)
            st.doc = ezodf.opendoc(self.path(st, "f1"))
            st.at = "f1"
        elif src == "bytes":
            st.doc = ezodf.opendoc(data)
            st.at, st.memory = None, True
        elif src == "stream":
            st.stream = io.BytesIO(data)
            st.files["s1"] = dict(st.model)
            st.doc = ezodf.opendoc(st.stream)
            st.at, st.memory = None, True
        elif src == "template":
            st.tmpl = os.path.join(st.dir, "template")
            with open(st.tmpl, "wb") as f:
                f.write(data)
            st.doc = ezodf.newdoc(ext, self.path(st, "f1"), template=st.tmpl)
            st.at = "f1"
        st.source = data
        return st

    def members(self):
        return [("Pictures/a.png", PIC, False)]

    def path(self, st, name):
        return os.path.join(st.dir, name + ("." + st.ext if not st.flat else ".xml"))

    def step(self, st, op):
        k = op[0]
        m = st.model
        if k == "add":
            st.n += 1
            add(st.doc, st.fam, "n%d" % st.n)
            m["items"] += ("n%d" % st.n,)
        elif k == "chg":
            if not m["items"]:
                raise Skip()
            st.n += 1
            change(st.doc, st.fam, "c%d" % st.n)
            m["items"] = ("c%d" % st.n,) + m["items"][1:]
        elif k == "del":
            if not m["items"]:
                raise Skip()
            delete(st.doc, st.fam)
            m["items"] = m["items"][:-1]
        elif k == "title":
            st.n += 1
            st.doc.meta["title"] = m["title"] = "title %d <&> \xe4" % st.n
            st.doc.meta.keywords.add("key%d" % st.n)
            m["keys"] += ("key%d" % st.n,)
        elif k == "style":
            if st.flat:
                raise Skip()
            st.n += 1
            st.doc.inject_style('<style:style style:name="N%d" style:family="paragraph"/>' % st.n)
            m["styles"] += ("N%d" % st.n,)
        elif k == "register":
            if st.flat:
                raise Skip()
            st.n += 1
            # the media type is optional
            st.doc.filemanager.register(op[1], b"data %d" % st.n, *op[2:])
            m["extra"] = tuple(e for e in m["extra"] if e[0] != op[1]) + \
                ((op[1], b"data %d" % st.n),)
        elif k == "save":
            if st.at is None:
                raise Skip()
            self.saved(st, st.at, st.doc.save)
        elif k == "saveas":
            if op[1] == "s1":
                st.stream = st.stream if st.stream is not None else io.BytesIO()
                self.saved(st, "s1", lambda: st.doc.saveas(st.stream))
            else:
                self.saved(st, op[1], lambda: st.doc.saveas(self.path(st, op[1])))
        elif k == "backup":
            st.doc.backup = op[1]
        elif k == "bytes":
            st.bytes = st.doc.tobytes()
            st.files["b"] = dict(m)
        elif k == "open":
            if op[1] not in st.files or op[1] in ("s1", "b") and st.flat:
                raise Skip()
            st.doc = ezodf.opendoc(self.handle(st, op[1]))
            st.model = dict(st.files[op[1]])
            st.memory = op[1] in ("s1", "b")
            st.at = None if st.memory else op[1]

    def handle(self, st, name):
        return {"s1": st.stream, "b": getattr(st, "bytes", None)}.get(name) \
            or self.path(st, name)

    def saved(self, st, where, fn):
        m = st.model
        cycles = str(int(m["cycles"] or 0) + 1)
        if where in ("f0", "f1", "f2"):
            old = st.files.get(where)
            if old is not None and st.doc.backup:
                if st.memory:
                    # whether there is a backup is not specified
                    st.bak[where] = st.bak.get(where, (None,)) + (dict(old),)
                else:
                    st.bak[where] = (dict(old),)
        fn()
        m["cycles"] = cycles
        st.at = where
        st.files[where] = dict(m)

    def data(self, st, name):
        if name == "b":
            return st.bytes
        if name == "s1":
            return st.stream.getvalue()
        with open(self.path(st, name), "rb") as f:
            return f.read()

    def observe(self, st):
        fam = st.fam
        # the open document
        self.show(st, "the open document", st.doc, st.model)
        # everything that was written
        for name, want in sorted(st.files.items()):
            data = self.data(st, name)
            self.written(st, name, data, want)
            if not self.REOPEN:
                continue
            if name in ("b", "s1") and st.flat:
                doc = odf.open_any(data)
            else:
                doc = ezodf.opendoc(self.handle(st, name))
            self.show(st, "newly opened " + name, doc, want)
        for name, want in sorted(st.bak.items()):
            path = self.path(st, name) + ".bak"
            if None in want and not os.path.exists(path):
                continue
            with open(path, "rb") as f:
                data = f.read()
            got = self.read(st, data)
            need(any(w is not None and got == self.facts(w) for w in want),
                 "backup of %s: got %r, expected %r", name, got, want)
        # nothing else
        names = set(os.listdir(st.dir))
        for name in ("f0", "f1", "f2"):
            base = os.path.basename(self.path(st, name))
            if name in st.files:
                names.discard(base)
            if name in st.bak:
                names.discard(base + ".bak")
        names.discard("template")
        need(not names, "unexpected files %r", sorted(names))
        if st.cfg[1] == "template":
            with open(st.tmpl, "rb") as f:
                same("the template is unchanged", f.read() == st.source, True)

    def facts(self, m):
        return (tuple((i, i) for i in m["items"]), m["title"], m["keys"], m["cycles"],
                m["styles"])

    def read(self, st, data):
        if st.flat:
            root = etree.fromstring(data)
            body = root.find(q("office:body"))[0]
            title, keys, cycles = meta_of(root)
            styles = styles_of(root)
        else:
            body = odf.app_body(data)
            title, keys, cycles = meta_of(etree.fromstring(odf.part(data, "meta.xml")))
            styles = styles_of(etree.fromstring(odf.part(data, "styles.xml")))
        return (tuple(raw_items(body, st.fam)), title, keys, cycles, styles)

    def written(self, st, name, data, want):
        same("content of " + name, self.read(st, data), self.facts(want))
        if not st.flat:
            mem = {n: d for n, _, d in odf.members(data)}
            for n, d in want["extra"]:
                need(mem.get(n) == d, "member %s of %s is %r", n, name,
                     mem.get(n) and mem[n][:30])

    def show(self, st, what, doc, m):
        same(what + ": content", items(doc, st.fam), [(i, i) for i in m["items"]])
        try:
            title = doc.meta["title"]
        except KeyError:
            title = None
        same(what + ": title", title, m["title"])
        same(what + ": keywords", sorted(doc.meta.keywords), sorted(m["keys"]))
        same(what + ": mimetype", doc.mimetype, st.mime)

    def canon(self, st):
        return repr((sorted((k, self.facts(v)) for k, v in st.files.items()),
                     self.facts(st.model), st.at))


class Packages(Histories):
    """The same histories with other edits; every package written on the way
    is judged by the independent package checker."""
    REOPEN = False
    OPS = (("add",), ("del",), ("style",), ("title",), ("register", "Pictures/a.png", "image/png"),
           ("register", "Pictures/new.png"), ("save",), ("saveas", "f1"), ("saveas", "f2"),
           ("saveas", "s1"), ("bytes",), ("open", "f1"), ("open", "s1"), ("open", "b"))

    def configs(self, tier):
        out = []
        if tier == "quick":
            for ext in ("odt", "ods", "odg", "otp", "odm"):
                for src in SOURCES:
                    deep = ext == "odt" and src in ("path", "stream", "template")
                    out.append(((ext, src), 3 if deep else 2, False))
            return out
        for ext in TYPES:
            for src in SOURCES:
                out.append(((ext, src), 4 if ext in ("odt", "ods") else 3, False))
        return out

    def members(self):
        return [("Pictures/a.png", PIC, False),
                ("settings.xml", b"<settings/>", True),
                ("Object 1/content.xml", b"<a/>", True),
                ("Object 1/mimetype", b"x", False),
                ("Configurations2/", b"", False),
                ("Pictures/\xe4 \xfc.png", PIC, True),
                # names which are almost those of managed members
                ("Styles.xml", b"<x/>", True), ("META.XML", b"y", False),
                ("sub/content.xml", b"z", True), ("content.xml.old", b"", False),
                ('a&b "c<.bin', b"\r\n", True)]

    def written(self, st, name, data, want):
        if name != "s1" and name != "b" and want["cycles"] is None:
            return
        src = "s1" if st.cfg[1] == "stream" else "f1"
        if name == src and want["cycles"] == "7":
            return                                  # the source itself
        bad = odf.check_package(data, st.mime)
        need(not bad, "package %s: %s", name, "; ".join(bad))
        Histories.written(self, st, name, data, want)
        names = [n for n, _, _ in odf.members(data)]
        expect = {"mimetype", "META-INF/manifest.xml", "content.xml", "styles.xml", "meta.xml"}
        if st.cfg[1] in ("path", "bytes", "stream", "template"):
            expect |= {m[0] for m in self.members()}
        expect |= {n for n, _ in want["extra"]}
        same("members of " + name, sorted(names), sorted(expect))
        man = etree.fromstring(odf.part(data, "META-INF/manifest.xml"))
        types = {e.get(q("manifest:full-path")): e.get(q("manifest:media-type")) for e in man}
        for n, d in want["extra"]:
            if d[:5] == b"data ":
                same("media type of " + n, types.get(n),
                     "image/png" if n == "Pictures/a.png" else "")

    def show(self, st, what, doc, m):
        pass


# ---------------------------------------------------------------- shapes (P03)

def shape_cases(tier):
    """Packages of unusual but legal form, saved (1 or 2 times)."""
    for ext in TYPES if tier != "quick" else ("odt", "ods", "odp", "odg", "otc", "odm"):
        for parts in ("csm", "cs", "cm", "c", ""):
            for order in (None, "reversed"):
                for mimetype in (True, "late", "packed", False):
                    for root in (True, False):
                        if not mimetype and not root:
                            continue
                        for how in ("path", "bytes", "stream"):
                            for target in ("same", "other", "bytes", "stream"):
                                if target == "same" and how == "bytes":
                                    continue
                                for times in (1, 2):
                                    for listed in range(2 if tier == "quick" and ext != "odt"
                                                        else len(LISTED)):
                                        if listed and how == "bytes" and tier == "quick":
                                            continue
                                        yield (ext, parts, order, mimetype, root, how, target,
                                               times, listed)


# further (legal) entries of the manifest
LISTED = ((), ("mimetype",), ("META-INF/", "Pictures/"),
          ("mimetype", "Pictures/", "META-INF/manifest.xml"))


def shape(ext, parts, order, mimetype, root, listed=0,
          members=(("Pictures/a.png", PIC, False),)):
    names = {"c": "content.xml", "s": "styles.xml", "m": "meta.xml"}
    members = list(members)
    if mimetype in ("late", "packed"):
        members.append(("mimetype", MIME[ext].encode(), mimetype == "packed"))
    data = odf.package(ext, inner(family(ext), "x"), members=members,
                       parts=[names[c] for c in parts],
                       mimetype=mimetype is True, manifest_root=root, order=order,
                       listed=LISTED[listed])
    return data


def shape_run(case):
    ext, parts, order, mimetype, root, how, target, times, listed = case
    data = shape(ext, parts, order, mimetype, root, listed)
    with scratch() as folder:
        path = os.path.join(folder, "src." + ext)
        with open(path, "wb") as f:
            f.write(data)
        stream = io.BytesIO(data)
        doc = ezodf.opendoc({"path": path, "bytes": data, "stream": stream}[how])
        out = os.path.join(folder, "out." + ext)
        for i in range(times):
            if target == "same":
                doc.saveas(path if how == "path" else stream)
            elif target == "other":
                doc.saveas(out)
            elif target == "stream":
                sink = io.BytesIO()
                doc.saveas(sink)
            else:
                got = doc.tobytes()
        if target == "same":
            got = open(path, "rb").read() if how == "path" else stream.getvalue()
        elif target == "other":
            got = open(out, "rb").read()
        elif target == "stream":
            got = sink.getvalue()
    bad = odf.check_package(got, MIME[ext])
    need(not bad, "%s", "; ".join(bad))
    same("members", sorted(n for n, _, _ in odf.members(got)),
         sorted(["mimetype", "META-INF/manifest.xml", "content.xml", "styles.xml", "meta.xml",
                 "Pictures/a.png"]))
    if "c" in parts:
        same("content", raw_items(odf.app_body(got), family(ext)), [("x", "x")])
    return (ext, parts, mimetype, listed, tuple(n for n, _, _ in odf.members(got)))


# ---------------------------------------------------------------- preservation (P04)

EXTRA = [("Pictures/a.png", PIC, False),
         ("settings.xml", b"<?xml version='1.0'?>\n<office:document-settings xmlns:office='x'/>\n",
          True),
         ("Object 1/content.xml", b"<a>sub document \r\n </a>", True),
         ("Object 1/mimetype", b"application/x-sub", False),
         ("Configurations2/", b"", False),
         ("Pictures/\xe4 \xfc.bin", bytes(range(255, -1, -1)) * 40, True),
         ("empty", b"", False),
         ("META-INF/documentsignatures.xml", b"<sig/>", True)]


def member_cases(tier):
    n = 5 if tier == "quick" else len(EXTRA)
    targets = ("same", "other", "other-same", "bytes", "stream", "template", "unnamed")
    for bits in range(1 << n):
        for order in (None, "reversed"):
            for how in ("path", "bytes", "stream"):
                for target in targets:
                    for times in (1, 2, 3):
                        if target == "same" and how == "bytes":
                            continue
                        yield (bits, order, how, target, times)
    if tier == "quick":
        for bits in (1 << 5, 1 << 6, 1 << 7, 255, 254, 127):
            for how in ("path", "bytes", "stream"):
                for target in targets:
                    if target == "same" and how == "bytes":
                        continue
                    yield (bits, None, how, target, 2)


def run_save(data, how, target, times, ext="odt", edit=None):
    """Save `data` as described; returns the written package.  Sources which
    are not the target have to stay unchanged."""
    with scratch() as folder:
        path = os.path.join(folder, "src." + ext)
        out = os.path.join(folder, "out." + ext)
        with open(path, "wb") as f:
            f.write(data)
        stream = io.BytesIO(data)
        src = {"path": path, "bytes": data, "stream": stream}[how]
        if target == "template":
            doc = ezodf.newdoc(ext, out, template=src)
        elif target == "unnamed":
            doc = ezodf.newdoc(ext, template=src)
        else:
            doc = ezodf.opendoc(src)
        if edit is not None:
            edit(doc)
        for i in range(times):
            if target == "same":
                doc.saveas(path if how == "path" else stream)
                got = open(path, "rb").read() if how == "path" else stream.getvalue()
            elif target in ("other", "template"):
                doc.saveas(out)
                got = open(out, "rb").read()
            elif target == "other-same":
                doc.saveas(out)
                doc.save()
                doc = ezodf.opendoc(out)
                doc.save()
                got = open(out, "rb").read()
            elif target == "stream":
                sink = io.BytesIO()
                doc.saveas(sink)
                got = sink.getvalue()
            elif target == "unnamed":
                got = doc.tobytes()
                try:
                    doc.save()
                except Exception:
                    pass            # there is no file to save to
            else:
                got = doc.tobytes()
        if target != "same":
            with open(path, "rb") as f:
                need(f.read() == data, "the source file was changed")
            need(stream.getvalue() == data, "the source stream was changed")
        else:
            if how == "stream":
                with open(path, "rb") as f:
                    need(f.read() == data, "an unrelated file was changed")
        left = sorted(set(os.listdir(folder)) -
                      {"src." + ext, "out." + ext, "src.%s.bak" % ext, "out.%s.bak" % ext})
        need(not left, "files left behind: %r", left)
    return got


def member_run(case):
    bits, order, how, target, times = case
    extra = [m for i, m in enumerate(EXTRA) if bits >> i & 1]
    data = odf.package("ott" if target in ("template", "unnamed") else "odt", inner("text", "x"), extra,
                       order=order)
    got = run_save(data, how, target, times)
    mem = odf.members(got)
    names = [n for n, _, _ in mem]
    same("members", sorted(names),
         sorted(["mimetype", "META-INF/manifest.xml", "content.xml", "styles.xml", "meta.xml"] +
                [m[0] for m in extra]))
    for n, d, _ in extra:
        need(dict((a, c) for a, b, c in mem)[n] == d, "member %s was changed", n)
    man = lambda b: {e.get(q("manifest:full-path")): e.get(q("manifest:media-type"))  # noqa
                     for e in etree.fromstring(odf.part(b, "META-INF/manifest.xml"))}
    a, b = man(data), man(got)
    for n, _, _ in extra:
        same("manifest entry of " + n, b.get(n), a.get(n))
    return tuple(names)


# elements the library adds to documents which lack them
ADDED = {q(t) for t in (
    "office:scripts", "office:font-face-decls", "office:automatic-styles", "office:body",
    "office:styles", "office:master-styles", "text:variable-decls", "text:user-field-decls",
    "meta:document-statistic", "office:meta", "office:settings")}
ORDER = {
    "content": [q("office:" + t) for t in ("scripts", "font-face-decls", "automatic-styles",
                                           "body")],
    "styles": [q("office:" + t) for t in ("font-face-decls", "styles", "automatic-styles",
                                          "master-styles")],
}


def embeds(src, out, where=""):
    """`out` is `src` plus empty elements the library is allowed to add."""
    here = where + "/" + local(out)
    same("element at " + where, local(out), local(src))
    same("attributes of " + here, dict(out.attrib), dict(src.attrib))
    same("prefixes used in " + here, odf.prefixes(out), odf.prefixes(src))
    same("text of " + here, out.text or "", src.text or "")
    if not isinstance(src.tag, str):
        same("kind of comment", etree.tostring(out, with_tail=False),
             etree.tostring(src, with_tail=False))
    todo = list(src)
    for c in out:
        if todo and c.tag == todo[0].tag and (len(c) or c.attrib or c.text or not
                                              (len(todo[0]) or todo[0].attrib or todo[0].text)):
            s = todo.pop(0)
            embeds(s, c, here)
            same("text behind %s/%s" % (here, local(c)), c.tail or "", s.tail or "")
        elif c.tag in ADDED and not len(c) and not c.attrib and not c.text:
            same("text behind added %s/%s" % (here, local(c)), c.tail or "", "")
        else:
            raise Mismatch("unexpected element %s in %s: %r" % (local(c), here,
                                                                etree.tostring(c)[:200]))
    need(not todo, "element %s is lost in %s", todo and local(todo[0]), here)


BLOCKS = {
    "text": [
        '<text:p text:style-name="P1">a <text:s/>b<text:tab/>c<text:line-break/>d&amp;&lt;&gt;"</text:p>',
        '<text:h text:outline-level="2">h<!-- comment -->t</text:h>',
        '<text:list text:style-name="L1"><text:list-header><text:p>lh</text:p></text:list-header>'
        '<text:list-item><text:p>i</text:p></text:list-item></text:list>',
        '<text:p><draw:frame draw:name="f" text:anchor-type="as-char"><draw:image '
        'xlink:href="Pictures/a.png" xlink:type="simple"/></draw:frame>tail<text:note '
        'text:note-class="footnote"><text:note-citation>1</text:note-citation><text:note-body>'
        '<text:p>n</text:p></text:note-body></text:note></text:p>',
        '<text:section text:name="s"><text:p/><text:p> </text:p></text:section>',
        '<x:unknown xmlns:x="urn:x" x:a="1" b="2">u<x:v/>w</x:unknown>',
        '<table:table table:name="t"><table:table-column table:number-columns-repeated="3"/>'
        '<table:table-row table:number-rows-repeated="2"><table:table-cell/></table:table-row>'
        '</table:table>',
        '<text:soft-page-break/>',
        # white space and mark-up which is easily lost
        '<text:p><text:span>a</text:span> <text:span>b</text:span>\n  <text:span/>\t</text:p>'
        '\n  <!-- between -->\n  <?pi some data?>\n',
        '<text:p xml:space="preserve"> <![CDATA[ <c> & ]]> &#13;\r\n&#x2028;&#xA0;&#9;</text:p>',
    ],
    "sheets": [
        '<table:table table:name="T1" table:style-name="ta1"><table:table-column '
        'table:style-name="co1" table:number-columns-repeated="2"/><table:table-row '
        'table:style-name="ro1"><table:table-cell office:value-type="float" office:value="1.50" '
        'table:formula="of:=1+0.5" table:style-name="ce1"><text:p>1,5</text:p></table:table-cell>'
        '<table:table-cell office:value-type="currency" office:currency="EUR" office:value="2">'
        '<text:p>2 EUR</text:p></table:table-cell></table:table-row></table:table>',
        '<table:table table:name="T2"><table:table-column/><table:table-row><table:table-cell '
        'xmlns:loc="urn:local" table:formula="loc:=1" office:value-type="string"><text:p>a<text:span text:style-name="x">b</text:span></text:p>'
        '<text:p>c</text:p></table:table-cell></table:table-row></table:table>',
        '<table:table table:name="T3"><office:forms/><table:shapes/><table:table-column/>'
        '<table:table-row><table:table-cell office:value-type="date" office:date-value="2012-01-01" '
        'table:formula="msoxl:=TODAY()">'
        '<text:p>1.1.</text:p></table:table-cell></table:table-row></table:table>',
    ],
    "pages": [
        '<draw:page draw:name="p1" draw:style-name="dp1" draw:master-page-name="D"><draw:frame '
        'svg:width="1cm"><draw:text-box><text:p>t</text:p></draw:text-box></draw:frame>'
        '<presentation:notes/></draw:page>',
        '<draw:page draw:name="p2"><draw:rect svg:x="1cm"/><draw:g><draw:line/></draw:g></draw:page>',
        '<draw:page/>',
    ],
    "plain": ['<chart:chart chart:class="chart:bar"><chart:plot-area/></chart:chart>',
              '<text:p>x</text:p>'],
}
TAIL = {"sheets": '<table:named-expressions><table:named-range table:name="n"/>'
                  '</table:named-expressions><table:database-ranges/>',
        "text": "", "pages": '<presentation:settings/>', "plain": ""}
HEAD = {"sheets": '<table:calculation-settings/>', "text": '<text:sequence-decls>'
        '<text:sequence-decl text:name="Figure"/></text:sequence-decls>', "pages": "", "plain": ""}
META = ('<meta:initial-creator>me</meta:initial-creator><meta:creation-date>2011-01-01T00:00:00'
        '</meta:creation-date><dc:title>t&amp;</dc:title><meta:keyword>k</meta:keyword>'
        '<meta:user-defined meta:name="n" meta:value-type="float">1.0</meta:user-defined>'
        '<meta:template xlink:href="x"/><meta:document-statistic meta:page-count="3" '
        'meta:image-count="1"/>')
STYLES = ('<style:default-style style:family="paragraph"><style:paragraph-properties '
          'fo:margin-top="1cm"/></style:default-style><style:style style:name="A" '
          'style:family="text"><style:text-properties fo:color="#ff0000"/></style:style>')
PARTSETS = ("scmb", "smb", "cmb", "scm", "scb", "b")


def content_cases(tier):
    exts = ("odt", "ods", "odp", "odg", "odc") if tier == "quick" else TYPES
    for ext in exts:
        fam = family(ext)
        n = len(BLOCKS[fam])
        size = 2 if tier == "quick" else 3
        combos = [c for k in range(size + 1) for c in itertools.product(range(n), repeat=k)]
        if tier == "quick" and n > 4:
            combos = [c for c in combos if len(c) < 2 or c[0] <= 3 or c[0] == n - 2]
        for combo in combos:
            for ends in (0, 1):
                for target in ("same", "bytes", "stream", "template"):
                    for edit in EDITS:
                        yield (ext, combo, ends, target, edit)


FORMS = ("plain", "indented", "utf-16", "iso-8859-1", "prefixes", "crlf", "standalone", "no-decl",
         "doctype", "nonodf")


def form_cases(tier):
    """The same content written in different ways."""
    for ext in ("odt", "ods", "odp"):
        for form in FORMS:
            for edit in EDITS:
                for target in ("same", "other-same", "bytes", "stream", "template"):
                    for how in ("path", "bytes", "stream"):
                        if how != "bytes" or target != "same":
                            yield (ext, form, edit, target, how)


def rewrite(data, form):
    """XML data with the same content in another form."""
    root = etree.fromstring(data)
    if form == "indented":
        etree.indent(root, "   ")
        return etree.tostring(root, pretty_print=True, xml_declaration=True, encoding="UTF-8")
    if form in ("utf-16", "iso-8859-1"):
        return etree.tostring(root, xml_declaration=True, encoding=form)
    if form == "crlf":
        etree.indent(root, " ")
        return etree.tostring(root, xml_declaration=True, encoding="UTF-8").replace(b"\n", b"\r\n")
    if form == "standalone":
        return etree.tostring(root, standalone=True, encoding="UTF-8")
    if form == "no-decl":
        return etree.tostring(root)
    if form == "doctype":
        return (b'<?xml version="1.0"?><!DOCTYPE x [<!ENTITY e "entity text">]><!-- in front -->' +
                etree.tostring(root, encoding="UTF-8", xml_declaration=False).replace(b"\xc3\xa4 text", b"&e;"))
    if form == "prefixes":
        out = data.decode("utf-8")
        for pre in odf.NS:
            out = out.replace("xmlns:%s=" % pre, "xmlns:q%s=" % pre).replace(
                "<%s:" % pre, "<q%s:" % pre).replace("</%s:" % pre, "</q%s:" % pre).replace(
                " %s:" % pre, " q%s:" % pre)
        return out.encode("utf-8")
    if form == "nonodf":
        root.set("{urn:x}attr", "1")
        n = etree.SubElement(root.find(".//" + q("office:automatic-styles")), "{urn:y}sub") \
            if root.find(".//" + q("office:automatic-styles")) is not None else None
        if n is not None:
            n.text = "foreign"
        return etree.tostring(root, xml_declaration=True, encoding="UTF-8")
    return data


def form_run(case):
    ext, form, edit, target, how = case
    fam = family(ext)
    t = {"odt": "ott", "ods": "ots", "odp": "otp"}[ext] if target == "template" else ext
    body = HEAD[fam] + BLOCKS[fam][0] + BLOCKS[fam][1] + TAIL[fam]
    data = odf.package(t, body, EXTRA[:2], META.replace("me<", "\xe4 text<"),
                       STYLES, autostyles='<style:style style:name="P1" style:family="paragraph"/>')
    for name in ("content.xml", "styles.xml", "meta.xml", "META-INF/manifest.xml"):
        data = odf.replace_member(data, name, rewrite(odf.part(data, name), form))
    if edit == "title" and form in ("indented", "crlf"):
        raise Skip()        # (the helper removes what it added, not the white space)
    got = run_save(data, how, target, 2, ext, lambda doc: do_edit(doc, fam, edit))
    content_compare(data, got, fam, edit, target != "bytes", 1)
    man = lambda b: {e.get(q("manifest:full-path")): e.get(q("manifest:media-type"))  # noqa
                     for e in etree.fromstring(odf.part(b, "META-INF/manifest.xml"))}
    a, b = man(data), man(got)
    for n in a:
        if n != "/":
            same("manifest entry of " + n, b.get(n), a[n])
    return case[:3]


EDITS = ("none", "look", "title", "add", "style")


def do_edit(doc, fam, edit):
    if edit == "look":
        # reading never changes a document
        if fam == "sheets":
            # accessed tables are expanded, see P09
            list(doc.sheets.names()), len(doc.sheets)
        else:
            list(doc.body)
            [n.plaintext() for n in doc.body if hasattr(n, "plaintext")]
        list(doc.meta.keywords), list(doc.meta.usertags), list(doc.meta.count)
        doc.meta.count["page"]
    elif edit == "title":
        doc.meta["title"] = "new"
        doc.meta.usertags.set("m", "v")
    elif edit == "add":
        add(doc, fam, "new item")
    elif edit == "style":
        doc.inject_style('<style:style style:name="I" style:family="text"/>')


def content_run(case):
    ext, combo, ends, target, edit = case
    fam = family(ext)
    body = "".join(BLOCKS[fam][i] for i in combo)
    if fam == "sheets" and target != "template":
        # unique names
        for i in range(len(combo)):
            body = body.replace('table:name="T%d"' % (combo[i] + 1),
                                'table:name="U%d"' % i, 1)
    if edit == "look":
        body = body.replace(' table:number-columns-repeated="3"', '').replace(
            ' table:number-rows-repeated="2"', '')
    if ends:
        body = HEAD[fam] + body + TAIL[fam]
    autos = '<style:style style:name="P1" style:family="paragraph"/><number:number-style/>'
    t = {"odt": "ott", "ods": "ots", "odp": "otp", "odg": "otg", "odc": "otc",
         "odi": "oti"}.get(ext, ext) if target == "template" else ext
    data = odf.package(t, body, [EXTRA[0]], META, STYLES, autostyles=autos)

    # (looking at tables with repeated rows is the subject of another property)
    got = run_save(data, "path" if target != "stream" else "stream", target, 2, ext,
                   lambda doc: do_edit(doc, fam, edit))
    content_compare(data, got, fam, edit, target != "bytes", ends)
    return (ext, combo, ends, edit)


def content_compare(data, got, fam, edit, saved, ends):
    root = lambda b, n: etree.fromstring(odf.part(b, n))  # noqa
    a, b = root(data, "content.xml"), root(got, "content.xml")
    if edit == "add":
        body = b.find(q("office:body"))[0]
        tag = {"sheets": "table:table", "pages": "draw:page"}.get(fam, "text:p")
        new = [n for n in body.findall(q(tag))
               if "new item" in (n.get(q("table:name")), n.get(q("draw:name")),
                                 "".join(n.itertext()))]
        same("number of new items", len(new), 1)
        last = body.findall(q(tag))[-1]
        need(last is new[0], "the new item is not the last one")
        body.remove(new[0])
    embeds(a, b)
    a, b = root(data, "styles.xml"), root(got, "styles.xml")
    if edit == "style":
        st = b.find(q("office:styles"))
        new = [n for n in st if n.get(q("style:name")) == "I"]
        same("number of injected styles", len(new), 1)
        st.remove(new[0])
    embeds(a, b)
    a, b = root(data, "meta.xml"), root(got, "meta.xml")
    m = b.find(q("office:meta"))
    for tag in ("dc:date", "meta:generator", "meta:editing-cycles"):
        for n in m.findall(q(tag)):
            need(saved, "%s was changed without saving", tag)
            m.remove(n)
    if edit == "title":
        same("title", m.findtext(q("dc:title")), "new")
        m.find(q("dc:title")).text = "t&"
        new = [n for n in m.findall(q("meta:user-defined")) if n.get(q("meta:name")) == "m"]
        same("number of new tags", len(new), 1)
        m.remove(new[0])
    embeds(a, b)


def part_cases(tier):
    """Packages without optional parts of content.xml/styles.xml."""
    for bits in range(16):
        for sbits in range(16):
            for target in ("same", "bytes"):
                for fam in ("odt", "ods"):
                    yield (bits, sbits, target, fam)


def part_run(case):
    bits, sbits, target, ext = case
    marks = {q("office:scripts"): '<office:script/>',
             q("office:font-face-decls"): '<style:font-face style:name="F"/>',
             q("office:automatic-styles"): '<style:style style:name="P1"/>',
             q("office:styles"): '<style:style style:name="A"/>',
             q("office:master-styles"): '<style:master-page style:name="M"/>',
             q("office:body"): '<office:%s>%s</office:%s>' % (
                 BODY[ext], inner(family(ext), "x"), BODY[ext])}

    def root(kind, bits):
        out = '<office:document-%s office:version="1.2">' % kind
        for i, tag in enumerate(ORDER[kind]):
            if bits >> i & 1:
                name = tag.split("}")[1]
                out += "<office:%s>%s</office:%s>" % (name, marks[tag], name)
        return etree.tostring(odf.xml(out + "</office:document-%s>" % kind))

    data = odf.package(ext, "")
    data = odf.replace_member(data, "content.xml", root("content", bits))
    data = odf.replace_member(data, "styles.xml", root("styles", sbits))
    got = run_save(data, "path", target, 2, ext)
    for kind in ("content", "styles"):
        a = etree.fromstring(odf.part(data, kind + ".xml"))
        b = etree.fromstring(odf.part(got, kind + ".xml"))
        same("parts of %s.xml" % kind, [local(n) for n in b],
             ["office:" + t.split("}")[1] for t in ORDER[kind]])
        for n in a:
            embeds(n, b.find(n.tag))
    return (bits, sbits)


# ---------------------------------------------------------------- types (P06)

def plain_of(ext):
    return {"ott": "odt", "ots": "ods", "otp": "odp", "otg": "odg", "otc": "odc", "oti": "odi",
            "otf": "odf"}.get(ext, ext)


def new_cases(tier):
    for ext in sorted(MIME):
        for how in ("bytes", "path", "stream", "wrong-name", "no-name"):
            for edit in (0, 1):
                yield (ext, how, edit)


def facts(doc, ext):
    same("mimetype", doc.mimetype, MIME[ext])
    same("doctype", doc.doctype, ext)
    fam = family(ext)
    same("has sheets", hasattr(doc, "sheets"), fam == "sheets")
    same("has pages", hasattr(doc, "pages"), fam == "pages")
    same("body", local(doc.body.xmlnode), "office:" + BODY[ext])
    for attr in ("meta", "body", "backup", "docname"):
        need(hasattr(doc, attr), "document has no %s", attr)


def new_run(case):
    ext, how, edit = case
    if ext not in BODY:
        try:
            doc = ezodf.newdoc(ext)
        except KeyError as e:
            raise Mismatch("newdoc(%r) fails: KeyError %s" % (ext, e), "formula")
        same("mimetype", doc.mimetype, MIME[ext])
        return ext
    with scratch() as folder:
        name = {"wrong-name": "x.ods" if ext != "ods" else "x.odt",
                "no-name": "x"}.get(how, "x." + ext)
        path = os.path.join(folder, name)
        doc = ezodf.newdoc(ext, path)
        facts(doc, ext)
        same("docname", doc.docname, path)
        if edit:
            add(doc, family(ext), "n")
        if how == "bytes":
            data = doc.tobytes()
            again = ezodf.opendoc(data)
        elif how == "stream":
            s = io.BytesIO()
            doc.saveas(s)
            data = s.getvalue()
            again = ezodf.opendoc(s)
        else:
            doc.save()
            data = open(path, "rb").read()
            again = ezodf.opendoc(path)
            same("docname", again.docname, path)
        same("mimetype member", odf.part(data, "mimetype"), MIME[ext].encode())
        bad = odf.check_package(data, MIME[ext])
        need(not bad, "%s", "; ".join(bad))
        facts(again, ext)
        same("content", items(again, family(ext)), [("n", "n")] if edit else [])
    return (ext, how)


def detect_cases(tier):
    for ext in TYPES:
        for other in TYPES + ["odf", "xyz", "ODT", None]:
            # where the type is recorded; "other" is recorded in less reliable places
            for where in ("all", "mimetype", "manifest", "ext"):
                for how in ("path", "bytes", "stream", "flat"):
                    if where == "ext" and (how != "path" or other is not None):
                        continue
                    if how == "flat" and where != "all":
                        continue
                    yield (ext, other, where, how)


def detect_run(case):
    ext, other, where, how = case
    name = "x." + (other or ext) if where != "ext" else "x." + ext
    body = inner(family(ext), "x")
    with scratch() as folder:
        path = os.path.join(folder, name)
        if how == "flat":
            data = odf.flat("", ext, body)
        else:
            data = odf.package(ext, body, mimetype=where in ("all", "mimetype"),
                               manifest_root=where in ("all", "manifest"))
            if where in ("mimetype",) and other in MIME:
                # the manifest says something else: the mimetype member decides
                man = odf.manifest_xml(MIME[other], ["content.xml"])
                data = odf.replace_member(data, "META-INF/manifest.xml", man)
        with open(path, "wb") as f:
            f.write(data)
        doc = ezodf.opendoc({"path": path, "bytes": data, "stream": io.BytesIO(data),
                             "flat": path}[how])
        facts(doc, ext)
        same("content", items(doc, family(ext)), [("x", "x")])
        out = os.path.join(folder, "out.bin")
        doc.saveas(out)
        again = ezodf.opendoc(out)
        facts(again, ext)
        if how != "flat":
            same("mimetype member", odf.part(open(out, "rb").read(), "mimetype"),
                 MIME[ext].encode())
            man = etree.fromstring(odf.part(open(out, "rb").read(), "META-INF/manifest.xml"))
            types = [e.get(q("manifest:media-type")) for e in man
                     if e.get(q("manifest:full-path")) == "/"]
            same("manifest type", types, [MIME[ext]])
    return (ext, where, how)


def template_cases(tier):
    for ext in TYPES:
        for how in ("path", "bytes", "stream"):
            for doctype in ("odt", None, "ext"):
                for name in ("", "new"):
                    yield (ext, how, doctype, name)
            # the type is only given by the manifest
            yield (ext, how, None, "", "manifest")
            yield (ext, how, "ext", "new", "manifest")


def template_run(case):
    ext, how, doctype, name = case[:4]
    want = plain_of(ext)
    data = odf.package(ext, inner(family(ext), "x"), [EXTRA[0]], META, STYLES,
                       mimetype=len(case) == 4)
    with scratch() as folder:
        path = os.path.join(folder, "t." + ext)
        with open(path, "wb") as f:
            f.write(data)
        src = {"path": path, "bytes": data, "stream": io.BytesIO(data)}[how]
        target = os.path.join(folder, "new.bin") if name else ""
        kw = {} if doctype is None else {"doctype": ext if doctype == "ext" else doctype}
        doc = ezodf.newdoc(filename=target, template=src, **kw)
        facts(doc, want)
        same("docname", doc.docname, target)
        same("content", items(doc, family(want)), [("x", "x")])
        got = doc.tobytes()
        bad = odf.check_package(got, MIME[want])
        need(not bad, "%s", "; ".join(bad))
        facts(ezodf.opendoc(got), want)
        if name:
            doc.save()
            facts(ezodf.opendoc(target), want)
        else:
            # there is no file to save to
            try:
                doc.save()
            except Exception:
                pass
            same("files", sorted(os.listdir(folder)), ["t." + ext])
        same("the template is unchanged", open(path, "rb").read() == data, True)
    return (ext, how)


def _zip(*mem):
    import zipfile
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for n, d in mem:
            z.writestr(n, d)
    return buf.getvalue()


GARBAGE = {
    "empty": b"", "text": b"hello world", "binary": bytes(range(256)), "pk": b"PK\x03\x04",
    "html": b"<html><body/></html>", "xml": b"<?xml version='1.0'?><root/>",
    "cut-xml": odf.flat("", "odt")[:-10], "cut-zip": odf.package("odt", "<text:p/>")[:-30],
    "other-xml": b"<office:document xmlns:office='urn:other'/>",
    "flat-no-type": odf.flat("", "odt").replace(b"office:mimetype", b"office:x"),
    "flat-wrong-type": odf.flat("", "odt").replace(MIME["odt"].encode(), b"text/plain"),
    "content-only": etree.tostring(etree.fromstring(odf.content_xml("text", "<text:p/>"))),
    "zip-wrong-type": _zip(("mimetype", "application/zip"), ("content.xml", "<a/>")),
    "zip-empty-type": _zip(("mimetype", ""), ("content.xml", "<a/>")),
    "zip-bad-content": _zip(("mimetype", MIME["odt"]), ("content.xml", "<a>")),
    "zip-other-content": _zip(("mimetype", MIME["odt"]), ("content.xml", "<a/>")),
    "zip-other-styles": _zip(("mimetype", MIME["odt"]), ("styles.xml", "<a/>")),
    "zip-other-meta": _zip(("mimetype", MIME["odt"]), ("meta.xml", "<a/>")),
    "zip-bad-manifest": _zip(("mimetype", MIME["odt"]), ("META-INF/manifest.xml", "<")),
    "zip-manifest-other-type": odf.replace_member(odf.package("odt", mimetype=False),
                                                  "META-INF/manifest.xml",
                                                  odf.manifest_xml("text/plain", [])),
    "epub": _zip(("mimetype", "application/epub+zip"), ("META-INF/container.xml", "<c/>")),
}


def _damaged():
    """Complete packages where one of the documents inside is not well-formed."""
    p = '<text:p>one</text:p><text:p text:style-name="S">two</text:p>'
    for kind in ("odt", "ods"):
        data = odf.package(kind, p if kind == "odt" else
                           '<table:table table:name="T"><table:table-column/><table:table-row>'
                           '<table:table-cell/></table:table-row></table:table>')
        for name in ("content.xml", "styles.xml", "meta.xml", "META-INF/manifest.xml"):
            xml_ = odf.part(data, name)
            i = xml_.index(b">", len(xml_) // 2)
            for how, bad in (("cut", xml_[:i + 1]), ("zero", b""), ("blank", b"\n"),
                             ("comment", b"<!--x-->"), ("no-end", xml_[:xml_.rindex(b"</")]),
                             ("amp", xml_[:i + 1] + b"&" + xml_[i + 1:]),
                             ("entity", xml_[:i + 1] + b"&nope;" + xml_[i + 1:]),
                             ("end-tag", xml_[:i + 1] + b"</x>" + xml_[i + 1:]),
                             ("twice", xml_ + b"<a/>"), ("nul", xml_[:i + 1] + b"\0" + xml_[i + 1:]),
                             ("utf8", xml_[:i + 1] + b"\xff" + xml_[i + 1:])):
                GARBAGE["%s-%s-%s" % (kind, name.split("/")[-1][:-4], how)] = \
                    odf.replace_member(data, name, bad)


_damaged()


def refuse_cases(tier):
    for g in sorted(GARBAGE) + ["missing", "folder"]:
        for how in ("path", "bytes", "stream", "template-path", "template-bytes",
                    "template-stream"):
            if g in ("missing", "folder") and not how.endswith("path"):
                continue
            yield (g, how)


def refuse_run(case):
    g, how = case
    with scratch() as folder:
        path = os.path.join(folder, "x.odt")
        data = GARBAGE.get(g)
        if g == "folder":
            os.mkdir(path)
        elif g != "missing":
            with open(path, "wb") as f:
                f.write(data)
        src = {"path": path, "bytes": data}.get(how.split("-")[-1]) or io.BytesIO(data)
        if how.endswith("bytes"):
            src = data
        try:
            if how.startswith("template"):
                ezodf.newdoc(template=src)
            else:
                ezodf.opendoc(src)
        except Exception as e:
            res = type(e).__name__
        else:
            raise Mismatch("%s accepted from %s" % (g, how))
        if data is not None:
            same("the file is unchanged", open(path, "rb").read() == data, True)
        same("files", os.listdir(folder), [] if g == "missing" else ["x.odt"])
    return (g, how, res)


def unknown_cases(tier):
    names = ["", "ODT", "doc", "xls", ".odt", "odt ", "od", "odtx", "text", "odb", None, 1,
             MIME["odt"]]
    for n in names:
        yield (n,)


def unknown_run(case):
    try:
        doc = ezodf.newdoc(case[0])
    except Exception as e:
        return (case[0], type(e).__name__)
    raise Mismatch("newdoc(%r) created a document of type %s" % (case[0], doc.doctype))


EXTS = ["zip", "docx", "xlsx", "pptx", "jar", "epub", "bin", "txt", "xml", "xyz", "ODT!", "odt2",
        "odt~", "bak", "tmp", "x.y", "", None]


def foreign_cases(tier):
    for ext in EXTS:
        for what in ("file", "empty", "ooxml", "content"):
            for how in ("path", "bytes", "stream", "template"):
                yield (ext, what, how)


def foreign_run(case):
    """Zip files which are no documents: nothing inside says what they are."""
    ext, what, how = case
    mem = {"file": [("a.txt", "x")], "empty": [],
           "ooxml": [("[Content_Types].xml", "<Types/>"), ("word/document.xml", "<document/>")],
           "content": [("content.xml", odf.content_xml("text", "<text:p/>"))]}[what]
    data = _zip(*mem)
    with scratch() as folder:
        path = os.path.join(folder, "x" if ext is None else "x." + ext)
        with open(path, "wb") as f:
            f.write(data)
        try:
            if how == "template":
                doc = ezodf.newdoc(template=path)
            else:
                doc = ezodf.opendoc({"path": path, "bytes": data, "stream": io.BytesIO(data)}[how])
        except Exception as e:
            res = type(e).__name__
        else:
            raise Mismatch("a foreign zip file is opened as %r" % doc.mimetype)
        same("the file is unchanged", open(path, "rb").read() == data, True)
        same("files", len(os.listdir(folder)), 1)
    return (ext, what, how, res)


# ---------------------------------------------------------------- two documents (P22)

FIELD = ('<text:user-field-decls><text:user-field-decl text:name="u" office:value-type="string" '
         'office:string-value="0"/></text:user-field-decls>')


class TwoDocs(Machine):
    """Two documents; after every history both have to show exactly the
    content their own operations describe."""
    name = "two documents"

    def configs(self, tier):
        cfgs = [(("odt", "odt", "src"), 3), (("ods", "ods", "src"), 3), (("odt", "ods", "new"), 3),
                (("ods", "ods", "new"), 3)]
        if tier != "quick":
            cfgs = [((a, b, s), 4) for a in ("odt", "ods", "odp") for b in ("odt", "ods", "odp")
                    for s in ("src", "new", "template")]
        else:
            cfgs += [(("odp", "odp", "template"), 3), (("ods", "ods", "template"), 3),
                     (("odt", "flat", "src"), 3), (("flat", "flat", "src"), 3)]
        return [(c, n, False) for c, n in cfgs]

    def ops(self, cfg):
        out = []
        for i in (0, 1):
            out += [("make", i), ("add", i), ("chg", i), ("meta", i), ("save", i), ("drop", i),
                    ("style", i), ("copy", i)]
        if cfg[2] != "new":
            out.append(("stream", 0))
        return out

    def init(self, cfg):
        st = St()
        st.cfg = cfg
        st.dir = scratch_dir()
        st.docs, st.models = [None, None], [None, None]
        st.begun = False
        st.n = 0
        st.k = [0, 0]
        st.data = {}
        for ext in set(cfg[:2]):
            e = "odt" if ext == "flat" else ext
            st.data[ext] = odf.package(
                e if cfg[2] != "template" else "ot" + e[2], FIELD + inner(family(e), "s1", "s2"),
                [EXTRA[0]], '<dc:title>t</dc:title><meta:keyword>k</meta:keyword>', STYLES) \
                if ext != "flat" else odf.flat("<dc:title>t</dc:title><meta:keyword>k"
                                               "</meta:keyword>", e, FIELD + inner("text", "s1", "s2"))
            with open(os.path.join(st.dir, "src." + ext), "wb") as f:
                f.write(st.data[ext])
        st.streams = {ext: io.BytesIO(d) for ext, d in st.data.items()}
        st.written = dict(st.data)
        self.make(st, 0)
        self.make(st, 1)
        return st

    def ext(self, st, i):
        e = st.cfg[i]
        return "odt" if e == "flat" else e

    def make(self, st, i):
        st.n += 1
        e, mode = st.cfg[i], st.cfg[2]
        path = os.path.join(st.dir, "out%d.%s" % (i, e))
        if mode == "new" and e != "flat":
            st.docs[i] = ezodf.newdoc(e, path)
            st.models[i] = {"items": (), "title": None, "keys": (), "styles": ()}
            return
        src = os.path.join(st.dir, "src." + e)
        if e != "flat":
            # all documents come from the same file, bytes or stream
            kind = ("bytes", "stream", "stream", "path")[st.n % 4]
            if kind == "stream" and st.written[e] == st.data[e]:
                src = st.streams[e]
            elif kind != "path":
                src = st.data[e]
        if mode == "template" and e != "flat":
            st.docs[i] = ezodf.newdoc(e, path, template=src)
        else:
            st.docs[i] = ezodf.opendoc(src)
            st.docs[i].docname = path
        st.models[i] = {"items": ("s1", "s2"), "title": "t", "keys": ("k",), "u": "0",
                        "styles": ("A",) if e != "flat" else ()}
        if e != "flat":
            st.models[i]["members"] = {EXTRA[0][0]: EXTRA[0][1]}

    def step(self, st, op):
        k, i = op
        if i == 1 and not st.begun and st.cfg[0] == st.cfg[1]:
            raise Skip()            # symmetric to the history with exchanged documents
        st.begun = True
        if k == "make":
            self.make(st, i)
            return
        doc, m = st.docs[i], st.models[i]
        if doc is None:
            raise Skip()
        fam = family(self.ext(st, i))
        st.n += 1
        # both documents get the same names and texts
        st.k[i] += 1
        new = "n%d" % st.k[i]
        if k == "add":
            add(doc, fam, new)
            m["items"] += (new,)
        elif k == "chg":
            if not m["items"]:
                raise Skip()
            change(doc, fam, new)
            m["items"] = (new,) + m["items"][1:]
        elif k == "meta":
            doc.meta.usertags["tag"] = m["tag"] = new
            doc.meta.count["page"] = st.k[i]
            m["page"] = st.k[i]
            doc.meta["title"] = m["title"] = new
            doc.meta.keywords.add(new)
            m["keys"] += (new,)
            if "u" in m:
                doc.body.userfields["u"].value = m["u"] = new
        elif k == "save":
            doc.save()
        elif k == "stream":
            # the stream other documents were opened from gets another content
            e = st.cfg[i]
            if e != "flat":
                m["members"][EXTRA[0][0]] = ("picture " + new).encode()
                doc.filemanager.register(EXTRA[0][0], m["members"][EXTRA[0][0]], "image/png")
            name, doc.docname = doc.docname, st.streams[e]
            doc.save()
            doc.docname = name
            st.written[e] = st.streams[e].getvalue()
        elif k == "drop":
            st.docs[i] = st.models[i] = None
            del doc
            gc.collect()
        elif k == "style":
            if st.cfg[i] == "flat":
                raise Skip()
            doc.inject_style('<style:style style:name="%s" style:family="text"/>' % new)
            m["styles"] += (new,)
        elif k == "copy":
            # an item of this document goes to the other document
            j = 1 - i
            new = "c%d" % st.n
            to, tm = st.docs[j], st.models[j]
            if to is None or not m["items"] or self.ext(st, i) != self.ext(st, j):
                raise Skip()
            if fam == "sheets":
                to.sheets.append(doc.sheets[0].copy(new))
                to.sheets[new]["A1"].set_value(new)
                to.sheets[new]["B1"] = doc.sheets[0]["A1"]
                same("copied cell", to.sheets[new]["B1"].value, m["items"][0])
                tm["items"] += (new,)
            else:
                # move the first item
                if fam == "pages":
                    page = doc.pages[0]
                    to.pages.append(page)
                else:
                    p = [n for n in doc.body if n.kind == "Paragraph"][0]
                    to.body.append(p)
                tm["items"] += m["items"][:1]
                m["items"] = m["items"][1:]

    def observe(self, st):
        for i in (0, 1):
            doc, m = st.docs[i], st.models[i]
            if doc is None:
                continue
            fam = family(self.ext(st, i))
            want = [(x, x) for x in m["items"]]
            same("content of document %d" % i, items(doc, fam), want)
            same("user tags of document %d" % i, dict(doc.meta.usertags),
                 {"tag": m["tag"]} if "tag" in m else {})
            same("count of document %d" % i, doc.meta.count["page"], m.get("page", 0))
            if st.cfg[i] != "flat":
                for name in m["styles"]:
                    same("style of document %d" % i, doc.styles.styles[name]["name"], name)
            data = doc.tobytes()
            if st.cfg[i] == "flat":
                root = etree.fromstring(data)
                body, meta, styles = root.find(q("office:body"))[0], root, root
            else:
                bad = odf.check_package(data, doc.mimetype)
                need(not bad, "document %d: %s", i, "; ".join(bad))
                body = odf.app_body(data)
                meta = etree.fromstring(odf.part(data, "meta.xml"))
                styles = etree.fromstring(odf.part(data, "styles.xml"))
                for name, content in m.get("members", {}).items():
                    same("member of document %d" % i, odf.part(data, name), content)
            same("written content of document %d" % i, raw_items(body, fam), want)
            same("meta data of document %d" % i, meta_of(meta)[:2], (m["title"], m["keys"]))
            same("styles of document %d" % i,
                 tuple(s for s in styles_of(styles) if s is not None), m["styles"])
            got = [n.get(q("office:string-value")) for n in body.iter(q("text:user-field-decl"))]
            same("user fields of document %d" % i, got, [m["u"]] if "u" in m else [])
        for ext, data in st.data.items():
            with open(os.path.join(st.dir, "src." + ext), "rb") as f:
                need(f.read() == data, "a source file was changed")
            need(st.streams[ext].getvalue() == st.written[ext], "a source stream was changed")

    def canon(self, st):
        return repr(st.models)


# ---------------------------------------------------------------- single files (P31)

TOP = ("meta", "settings", "scripts", "font-face-decls", "styles", "automatic-styles",
       "master-styles", "body")
MARK = {
    "meta": META.replace("meta:document-statistic", "meta:document-statistic"),
    "settings": '<config:config-item-set config:name="s"/>',
    "scripts": '<office:script/>',
    "font-face-decls": '<style:font-face style:name="F"/>',
    "styles": STYLES,
    "automatic-styles": '<style:style style:name="P1"/>',
    "master-styles": '<style:master-page style:name="M"/>',
}
FLATOPS = ("add", "chg", "title", "save", "saveas", "reopen", "bytes")


def flat_cases(tier):
    allsub = range(256)
    for bits in allsub:
        for filled in (0, 1):
            for ops in _seqs(FLATOPS, 2 if tier == "quick" else 3):
                yield ("odt", bits, filled, ops)
    for ext in TYPES if tier != "quick" else ("ods", "odp", "odg", "odc", "ott"):
        for bits in (255, 254, 127, 128, 0, 0b10010001):
            for ops in _seqs(FLATOPS, 3 if tier == "quick" else 4):
                yield (ext, bits, 1, ops)


    for form in FORMS:
        for bits in (255, 254, 127, 0b10010001):
            for filled in (0, 1):
                for ops in _seqs(FLATOPS, 1 if tier == "quick" else 2):
                    yield ("odt:" + form, bits, filled, ops)
                    if form != "pretty":
                        yield ("ods:" + form, bits, filled, ops)


FORMS = ("pretty", "comments", "instructions", "foreign")


def dressed(root, form):
    """Another form of the same document."""
    places = [root, root.find(q("office:body")), root.find(q("office:meta"))]
    body = places[1]
    if body is not None:
        places += list(body)
    for node in places:
        if node is None:
            continue
        for i in range(len(node), -1, -1):
            new = {"comments": lambda: etree.Comment("c"), "foreign": lambda: None,
                   "instructions": lambda: etree.ProcessingInstruction("x", "y"),
                   "pretty": lambda: None}[form]()
            if new is not None:
                node.insert(i, new)
        if form == "foreign":
            node.set("{urn:foreign}a", "1")
    if form == "pretty":
        etree.indent(root, " ")
    return root


def _seqs(ops, n):
    for k in range(n + 1):
        for s in itertools.product(ops, repeat=k):
            yield s


def flat_source(ext, bits, filled, form=""):
    out = '<office:document office:mimetype="%s" office:version="1.2">' % MIME[ext]
    for i, part in enumerate(TOP):
        if not bits >> i & 1:
            continue
        if part == "body":
            content = "<office:%s>%s</office:%s>" % (BODY[ext], inner(family(ext), "s1"), BODY[ext])
        else:
            content = MARK[part] if filled else ""
        out += "<office:%s>%s</office:%s>" % (part, content, part)
    if form:
        root = dressed(odf.xml(out + "</office:document>"), form)
        return etree.tostring(root, xml_declaration=True, encoding="UTF-8")
    return etree.tostring(odf.xml(out + "</office:document>"), xml_declaration=True,
                          encoding="UTF-8")


def flat_run(case):
    ext, bits, filled, ops = case
    ext, _, form = ext.partition(":")
    fam = family(ext)
    data = flat_source(ext, bits, filled, form)
    with scratch() as folder:
        path = os.path.join(folder, "a.fodt")
        other = os.path.join(folder, "b.xml")
        with open(path, "wb") as f:
            f.write(data)
        doc = ezodf.opendoc(path)
        model = {"items": ["s1"] if bits & 128 else [],
                 "title": ("t&" if filled else None) if bits & 1 else None, "cycles": 0}
        files = {}
        here = path
        n = 0
        for op in ops:
            n += 1
            if op == "add":
                add(doc, fam, "n%d" % n)
                model["items"].append("n%d" % n)
            elif op == "chg":
                if not model["items"]:
                    raise Skip()
                change(doc, fam, "c%d" % n)
                model["items"][0] = "c%d" % n
            elif op == "title":
                doc.meta["title"] = model["title"] = "new %d" % n
            elif op in ("save", "saveas"):
                if op == "save":
                    doc.save()
                else:
                    doc.saveas(other)
                    here = other
                model["cycles"] += 1
                files[here] = dict(model, items=list(model["items"]))
            elif op == "reopen":
                if here not in files:
                    raise Skip()
                doc = ezodf.opendoc(here)
                model = dict(files[here], items=list(files[here]["items"]))
            elif op == "bytes":
                flat_check(doc.tobytes(), data, ext, model)
        facts_flat(doc, ext)
        same("content", items(doc, fam), [(i, i) for i in model["items"]])
        flat_check(doc.tobytes(), data, ext, model)
        for p, m in sorted(files.items()):
            flat_check(open(p, "rb").read(), data, ext, m)
            again = ezodf.opendoc(p)
            facts_flat(again, ext)
            same("reopened content", items(again, fam), [(i, i) for i in m["items"]])
        if path not in files:
            need(open(path, "rb").read() == data, "the source file was changed")
        left = set(os.listdir(folder)) - {"a.fodt", "b.xml", "a.fodt.bak", "b.xml.bak"}
        need(not left, "files left behind: %r", sorted(left))
        if path not in files:
            need(not os.path.exists(path + ".bak"), "backup without saving")
        elif "reopen" not in ops and ops.count("save") == 1 and "saveas" not in ops:
            need(open(path + ".bak", "rb").read() == data, "the backup is not the old document")
    return (ext, bits, filled, tuple(model["items"]))


def facts_flat(doc, ext):
    facts(doc, ext)
    for attr in ("settings", "scripts", "fonts", "styles", "automatic_styles", "master_styles"):
        need(hasattr(doc, attr), "document has no %s", attr)


def flat_check(got, src, ext, model):
    a, b = etree.fromstring(src), etree.fromstring(got)
    same("root", b.tag, q("office:document"))
    same("mimetype", b.get(q("office:mimetype")), MIME[ext])
    same("version", b.get(q("office:version")), "1.2")
    same("parts", [local(n) for n in b if isinstance(n.tag, str)],
         ["office:" + t for t in TOP])
    for kind in (etree.Comment, etree.ProcessingInstruction):
        same("comments and instructions", len(list(b.iter(kind))), len(list(a.iter(kind))))
    for n in a:
        if not isinstance(n.tag, str) or n.tag in (q("office:body"), q("office:meta")):
            continue
        embeds(n, b.find(n.tag))
    body = b.find(q("office:body"))
    # prefixes are also used inside of values (formulas)
    lost = [k for k, v in a.nsmap.items() if body.nsmap.get(k) != v]
    need(not lost, "prefixes which are not declared any more: %r", sorted(lost, key=str))
    same("bodies", [local(n) for n in body.iterchildren(tag=etree.Element)],
         ["office:" + BODY[ext]])
    same("content", raw_items(body.find(q("office:" + BODY[ext])), family(ext)), [(i, i) for i in model["items"]])
    m = b.find(q("office:meta"))
    same("title", m.findtext(q("dc:title")), model["title"])
    same("cycles", m.findtext(q("meta:editing-cycles")),
         str(model["cycles"]) if model["cycles"] else None)
    om = a.find(q("office:meta"))
    for n in om if om is not None else ():
        if isinstance(n.tag, str) and n.tag != q("dc:title"):
            f = [c for c in m if odf.tree(c) == odf.tree(n)]
            same("meta data element " + local(n), len(f), 1)


def sink_cases(tier):
    for ext in TYPES if tier != "quick" else ("odt", "ods", "odp", "odg"):
        for bits in (255, 128, 0):
            for old in (0, 1, 10, 5000, 200000):
                for pos in ("start", "middle", "end"):
                    for then in _seqs(("big", "small", "save", "meta"), 2 if tier == "quick" else 3):
                        yield (ext, bits, old, pos, then)


def sink_run(case):
    """A single XML file is saved to a stream which has another content."""
    ext, bits, old, pos, then = case
    fam = family(ext)
    data = flat_source(ext, bits, 1)
    with scratch() as folder:
        path = os.path.join(folder, "a.fodt")
        with open(path, "wb") as f:
            f.write(data)
        doc = ezodf.opendoc(path)
        model = {"items": ["s1"] if bits & 128 else [], "title": "t&" if bits & 1 else None, "cycles": 1}
        sink = io.BytesIO(b"x" * old)
        sink.seek({"start": 0, "middle": old // 2, "end": old}[pos])
        doc.saveas(sink)
        flat_check(sink.getvalue(), data, ext, model)
        for n, op in enumerate(then):
            if op == "big":
                for k in range(20):
                    add(doc, fam, "n%d-%d" % (n, k))
                    model["items"].append("n%d-%d" % (n, k))
            elif op == "small":
                doc.meta["title"] = model["title"] = "s"
            elif op == "meta":
                doc.meta["title"] = model["title"] = "long " * 50
            doc.save()
            model["cycles"] += 1
            flat_check(sink.getvalue(), data, ext, model)
        need(open(path, "rb").read() == data, "the source file was changed")
        same("files", sorted(os.listdir(folder)), ["a.fodt"])
    return (ext, bits, then)


CHECKS = [
    Check("P03", "model_checking",
          [Packages("package histories"), Cases("package shapes", shape_cases, shape_run),
           domain.MEMBERS, sizes.KNOWN, sizes.GROWTH],
          "every sequence of edits (content, styles, meta data, members), saves, save-as, "
          "streams, bytes and reopenings up to the depth, for all document types x sources; "
          "every package shape (parts missing, order, place and form of the mimetype member) x "
          "source x target x repetition; every written package judged by an independent checker",
          ["source packages are legal (no duplicate members or manifest entries)",
           "formula documents excluded (cannot be created)"]),
    Check("P04", "exploration",
          [Cases("members", member_cases, member_run), Cases("content", content_cases, content_run),
           Cases("forms", form_cases, form_run),
           Cases("parts", part_cases, part_run), sizes.KNOWN, sizes.VOLUME,
           sizes.ZIPFORMS],
          "all subsets of unmanaged members x order x source x target x repetition; all "
          "combinations of content blocks x target x kind of edit; all subsets of parts of "
          "content.xml and styles.xml; compared byte for byte / element by element",
          ["tables with repeated cells are only read, not accessed (see P09)"]),
    Check("P05", "model_checking", [Edits(), Histories("histories"), sizes.LIMITS, domain.FILENAMES,
                                   sizes.CONTENT],
          "every sequence of {add, change, delete, meta data, save, save as file 1/2/stream, "
          "bytes, open file 1/2/stream/bytes} up to the depth per document type and source; "
          "open document, every file, stream, byte string and backup compared with the model",
          ["the source file of an open document is not removed or replaced by others"]),
    Check("P06", "exploration",
          [Cases("new", new_cases, new_run), Cases("detection", detect_cases, detect_run),
           Cases("templates", template_cases, template_run), Cases("refused", refuse_cases, refuse_run),
           Cases("unknown", unknown_cases, unknown_run),
           Cases("foreign", foreign_cases, foreign_run)],
          "all document types x ways to store and reopen; x places where the type is recorded; "
          "all templates x sources; all listed kinds of foreign or damaged files", []),
    Check("P22", "model_checking", [TwoDocs(), Cases("pairs", pair_cases, pair_run), sizes.DOCS,
                                     fresh.FRESH],
          "every interleaving of create/edit/meta data/save/drop/style/copy operations on two "
          "documents up to the depth, per pair of kinds and source; both documents and all "
          "sources compared with two independent models",
          ["documents are not saved over the source of the other one"]),
    Check("P31", "model_checking", [Cases("single files", flat_cases, flat_run),
                                    Cases("streams", sink_cases, sink_run), domain.FLAT],
          "all 256 subsets of top-level parts (empty and filled) x all histories of edit, save, "
          "save as, bytes, reopen up to the depth; further types with selected subsets", []),
]
