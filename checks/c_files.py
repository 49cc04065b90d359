"""Backups, and the validation of packages and document bodies."""
import io
import itertools
import os
import re
import zipfile

from lxml import etree

import ezodf
from ezodf import Paragraph

from lib import odf
from lib.mc import Cases, Check, Machine, need, same, scratch, scratch_dir
from lib.odf import MIME, q


class St(object):
    pass


# ---------------------------------------------------------------- backups

SLOTS = {"a": "a.odt", "b": "b \u20ac.odt", "sub": os.path.join("sub", "c.odt")}
KINDS = ("path", "bytes", "stream", "template", "new", "flat", "flatnew")


def content(kind, text):
    body = "<text:p>%s</text:p>" % text
    return odf.flat("", "odt", body) if kind.startswith("flat") else \
        odf.package("ott" if kind == "template" else "odt", body)


def texts(data):
    if data[:2] == b"PK":
        bad = odf.check_package(data, MIME["odt"])
        need(not bad, "%s", "; ".join(bad))
        root = odf.app_body(data)
    else:
        root = etree.fromstring(data)
    return [p.text or "" for p in root.iter(q("text:p"))]


def still_open(folder):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if target.startswith(folder):
            out.append(os.path.relpath(target, folder))
    return out


class Backups(Machine):
    """Every operation may change exactly the files it is meant for."""
    name = "backups"

    def configs(self, tier):
        n = 3 if tier == "quick" else 4
        return [((k, bak), n, False) for k in KINDS for bak in (False, True)]

    def ops(self, cfg):
        return [("save",), ("as", "a"), ("as", "b"), ("as", "sub"), ("backup", True), ("backup", False),
                ("edit",), ("foreign", "a"), ("rm", "a"), ("rmbak", "a"), ("mem",), ("reopen",), ("fail",)]

    def init(self, cfg):
        kind, bak = cfg
        st = St()
        st.folder = scratch_dir()
        st.kind, st.n = kind, 0
        os.mkdir(os.path.join(st.folder, "sub"))
        st.files = {}
        for slot in ("a", "sub"):
            self.put(st, SLOTS[slot], content("flat" if kind.startswith("flat") else "path", slot))
            if bak:
                self.put(st, SLOTS[slot] + ".bak", b"older backup of " + slot.encode())
        path = os.path.join(st.folder, SLOTS["a"])
        st.items = ["a"]
        st.memory = kind in ("bytes", "stream")
        if kind == "new":
            st.doc, st.items = ezodf.newdoc("odt", path), []
        elif kind == "template":
            self.put(st, "t.ott", content(kind, "a"))
            st.doc = ezodf.newdoc(filename=path, template=os.path.join(st.folder, "t.ott"))
        elif kind == "flatnew":
            from ezodf.document import FlatXMLDocument
            st.doc, st.items = FlatXMLDocument("odt", path), []
        elif st.memory:
            data = st.files[SLOTS["a"]]
            st.doc = ezodf.opendoc(data if kind == "bytes" else io.BytesIO(data))
        else:
            st.doc = ezodf.opendoc(path)
        st.goal = None if st.memory else SLOTS["a"]
        st.backup = True
        return st

    def put(self, st, name, data):
        with open(os.path.join(st.folder, name), "wb") as f:
            f.write(data)
        st.files[name] = data

    def snapshot(self, st):
        out = {}
        for p, _, names in os.walk(st.folder):
            for n in names:
                full = os.path.join(p, n)
                with open(full, "rb") as f:
                    out[os.path.relpath(full, st.folder)] = f.read()
        return out

    def step(self, st, op):
        doc, k = st.doc, op[0]
        written = None
        if k == "save":
            if st.goal is None:
                try:
                    doc.save()
                except (IOError, OSError):
                    pass
                else:
                    need(False, "saved without a name")
            elif isinstance(st.goal, str):
                doc.save()
                written = st.goal
            else:
                doc.save()
                same("content of the stream", texts(st.goal.getvalue()), st.items)
        elif k == "as":
            written = st.goal = SLOTS[op[1]]
            doc.saveas(os.path.join(st.folder, written))
        elif k == "backup":
            doc.backup = st.backup = op[1]
        elif k == "edit":
            st.n += 1
            doc.body.append(Paragraph("p%d" % st.n))
            st.items.append("p%d" % st.n)
        elif k == "foreign":
            st.n += 1
            self.put(st, SLOTS[op[1]], content("flat" if st.kind.startswith("flat") else "path",
                                               "foreign %d" % st.n))
        elif k == "rm":
            if SLOTS[op[1]] in st.files:
                os.remove(os.path.join(st.folder, SLOTS[op[1]]))
                del st.files[SLOTS[op[1]]]
        elif k == "rmbak":
            if SLOTS[op[1]] + ".bak" in st.files:
                os.remove(os.path.join(st.folder, SLOTS[op[1]] + ".bak"))
                del st.files[SLOTS[op[1]] + ".bak"]
        elif k == "mem":
            same("content in memory", texts(doc.tobytes()), st.items)
            buf = io.BytesIO(b"x" * 50000)
            st.goal = buf
            doc.saveas(buf)
            same("content of the stream", texts(buf.getvalue()), st.items)
        elif k == "reopen":
            if isinstance(st.goal, str) and st.goal in st.files:
                st.doc = ezodf.opendoc(os.path.join(st.folder, st.goal))
                same("backups are switched on", st.doc.backup, True)
                st.items = texts(st.files[st.goal])
                st.backup, st.memory = True, False
        elif k == "fail":
            # the folder does not exist
            name = doc.docname
            try:
                doc.saveas(os.path.join(st.folder, "nowhere", "x.odt"))
            except (IOError, OSError):
                pass
            else:
                need(False, "saved into a folder which does not exist")
            doc.docname = name
        same("files that are still open", still_open(st.folder), [])
        now = self.snapshot(st)
        want = dict(st.files)
        if written is not None:
            old = st.files.get(written)
            if old is not None and st.backup and not st.memory:
                want[written + ".bak"] = old
            need(written in now, "the file was not written")
            want[written] = now[written]
            same("content of the file", texts(now[written]), st.items)
            same("docname", doc.docname, os.path.join(st.folder, written))
        same("files", sorted(now), sorted(want))
        for n in want:
            need(now[n] == want[n], "wrong content of %s: %s", n, self.whose(now[n], st))
        st.files = now

    def whose(self, data, st):
        for n, d in st.files.items():
            if d == data:
                return "that of " + n
        return repr(data[:40])

    def execute(self, cfg, seq):
        st = self.init(cfg)
        try:
            for op in seq:
                self.step(st, op)
        finally:
            self.clean(st)
        return st

    def clean(self, st):
        for p, dirs, names in os.walk(st.folder, topdown=False):
            for n in names:
                os.remove(os.path.join(p, n))
            os.rmdir(p)

    def canon(self, st):
        return (st.kind, sorted(st.files), st.backup, tuple(st.items),
                st.goal if isinstance(st.goal, str) else st.goal is None)


# ---------------------------------------------------------------- validation of packages

MEMBERS = ("mimetype", "content.xml", "styles.xml", "meta.xml", "META-INF/manifest.xml")


def valid_cases(tier):
    exts = sorted(e for e in MIME if e in odf.BODY)
    for ext in exts:
        yield ("written", ext)
    for ext in ("odt", "ods", "ott") if tier == "quick" else exts:
        for n in range(len(MEMBERS) + 1):
            for gone in itertools.combinations(MEMBERS, n):
                for order in ("first", "last"):
                    for comp in (False, True):
                        yield ("package", ext, gone, order, comp)
        for n in range(5):
            for unlisted in itertools.combinations(("/", "content.xml", "styles.xml", "meta.xml"), n):
                for typ in (None, "wrong", "empty", "prefix", "longer"):
                    yield ("manifest", ext, unlisted, typ)
        for other in exts:
            yield ("asked", ext, other)
        for what in ("empty", "text", "xml", "cut", "missing", "folder", "zip"):
            yield ("file", ext, what)
        for i in range(4):
            for form in FORMS:
                for extra in EXTRAS:
                    yield ("entry", ext, i, form, extra)
        for name in MEMBERS:
            for form in ("same", "folder", "upper", "slash", "space"):
                yield ("member", ext, name, form)
        for form in ("same", "newline", "space", "longer", "blank before", "bom", "upper", "extra field", "other first", "name"):
            yield ("first", ext, form)


FORMS = ("same", "folder", "dot", "upper", "space", "no namespace", "other element", "nested", "comment")
EXTRAS = ("", "types", "comment", "reversed", "prefix")
ENTRIES = ("/", "content.xml", "styles.xml", "meta.xml")


def variant(ext, kind, *args):
    """(package with one deviation, valid)"""
    parts = {n: d for n, _, d in odf.members(odf.package(ext, "", [("Pictures/a.png", b"\x89PNG", False)]))}
    mime = MIME[ext]
    names = sorted(parts, key=lambda n: (n != "mimetype", n))
    good = args[1 if kind != "first" else 0] == "same"
    fields = {}
    if kind == "entry":
        i, form, extra = args
        root = etree.fromstring(parts["META-INF/manifest.xml"])
        path = q("manifest:full-path")
        e = [e for e in root if e.get(path) == ENTRIES[i]][0]
        new = {"folder": "Object 1/" + ENTRIES[i], "dot": "./" + ENTRIES[i], "upper": ENTRIES[i].upper(),
               "space": ENTRIES[i] + " "}.get(form)
        if form == "upper" and i == 0:
            new = "\\"
        if new:
            e.set(path, new)
        elif form == "no namespace":
            e.set("full-path", e.attrib.pop(path))
        elif form == "other element":
            e.tag = q("manifest:entry")
        elif form == "nested":
            etree.SubElement([x for x in root if x is not e][0], e.tag, dict(e.attrib))
            root.remove(e)
        elif form == "comment":
            root.replace(e, etree.Comment(etree.tostring(e).decode()))
        if extra == "types":
            for n in ("Object 1/", "Pictures/b.png", "mimetype"):
                for x in [x for x in root if x.get(path) == n]:
                    root.remove(x)
                etree.SubElement(root, q("manifest:file-entry"), {path: n, q("manifest:media-type"): mime})
        elif extra == "comment":
            for x in list(root):
                x.addprevious(etree.Comment(" c "))
                x.addnext(etree.PI("p", "i"))
        elif extra == "reversed":
            root[:] = list(root)[::-1]
        data = etree.tostring(root)
        if extra == "prefix":
            data = data.replace(b"<manifest:", b"<m:").replace(b"</manifest:", b"</m:").replace(
                b" manifest:", b" m:").replace(b"xmlns:manifest=", b"xmlns:m=")
        parts["META-INF/manifest.xml"] = data
    elif kind == "member":
        name, form = args
        new = {"same": name, "folder": "Object 1/" + name, "upper": name.swapcase(), "slash": name + "/",
               "space": name + " "}[form]
        parts[new] = parts.pop(name)
        names[names.index(name)] = new
    else:
        form = args[0]
        b = mime.encode()
        parts["mimetype"] = {"newline": b + b"\n", "space": b + b" ", "longer": b + b"-template", "blank before": b" " + b, "bom": b"\xef\xbb\xbf" + b,
                             "upper": b.upper()}.get(form, b)
        if form == "name":
            parts["mimetype" + mime] = b""
            del parts["mimetype"]
            names[0] = "mimetype" + mime
        if form == "extra field":
            fields["mimetype"] = b"\xca\xfe\0\0"
        if form == "other first":
            names.insert(0, names.pop())
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for n in names:
            zi = zipfile.ZipInfo(n, (2011, 2, 3, 4, 5, 6))
            zi.extra = fields.get(n, b"")
            zi.compress_type = zipfile.ZIP_DEFLATED if n[:8] != "mimetype" else zipfile.ZIP_STORED
            z.writestr(zi, parts[n])
    return buf.getvalue(), good


def build(ext, gone=(), order="first", comp=False, unlisted=(), typ=None):
    mime = MIME[ext]
    man = {None: mime, "wrong": MIME["odg"], "empty": "", "prefix": mime[:-1], "longer": mime + "x"}[typ]
    data = odf.package(ext, "", [("Pictures/a.png", b"\x89PNG", False)])
    parts = dict((n, d) for n, _, d in odf.members(data))
    root = etree.fromstring(parts["META-INF/manifest.xml"])
    for e in list(root):
        if e.get(q("manifest:full-path")) in unlisted:
            root.remove(e)
        elif e.get(q("manifest:full-path")) == "/":
            e.set(q("manifest:media-type"), man)
    parts["META-INF/manifest.xml"] = etree.tostring(root)
    names = sorted(parts, key=lambda n: (n != "mimetype") == (order == "first"))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for n in names:
            if n not in gone:
                zi = zipfile.ZipInfo(n, (2011, 2, 3, 4, 5, 6))
                zi.compress_type = zipfile.ZIP_DEFLATED if comp or n != "mimetype" else zipfile.ZIP_STORED
                z.writestr(zi, parts[n])
    return buf.getvalue()


def valid_run(case):
    """check_zipfile_for_oasis_validity() accepts exactly the valid packages."""
    from ezodf.filemanager import check_zipfile_for_oasis_validity as check
    kind, ext = case[:2]
    mime = MIME[ext].encode()
    with scratch() as folder:
        path = os.path.join(folder, "x.zip")

        def answer(data):
            with open(path, "wb") as f:
                f.write(data)
            return bool(check(path, mime))
        if kind == "written":
            doc = ezodf.newdoc(ext, path)
            for n in range(3):
                doc.saveas(path)
                need(check(path, mime), "a saved document is not valid")
                need(check(path, doc.mimetype.encode()), "a saved document is not valid")
                if n == 1:
                    doc = ezodf.opendoc(path)
        elif kind == "package":
            gone, order, comp = case[2:]
            same("valid", answer(build(ext, gone, order, comp)),
                 not gone and order == "first" and not comp)
        elif kind == "manifest":
            unlisted, typ = case[2:]
            same("valid", answer(build(ext, unlisted=unlisted, typ=typ)), not unlisted and typ is None)
        elif kind in ("entry", "member", "first"):
            data, good = variant(ext, kind, *case[2:])
            same("valid", answer(data), good)
        elif kind == "asked":
            same("valid", answer(build(case[2])), case[2] == ext)
        elif case[2] in ("missing", "folder"):
            try:
                res = bool(check(os.path.join(folder, "nothing") if case[2] == "missing" else folder, mime))
            except (IOError, OSError):
                res = False
            same("valid", res, False)
        else:
            data = build(ext)
            bad = {"empty": b"", "text": b"mimetype" + mime, "xml": odf.flat("", ext), "cut": data[:-30],
                   "zip": b"PK\3\4" + data[4:60]}[case[2]]
            same("valid", answer(bad), False)
    return case


# ---------------------------------------------------------------- validation of bodies

def struct_cases(tier):
    n = 6 if tier == "quick" else 8
    for k in range(n + 1):
        for tags in itertools.product("abgxyi", repeat=k):
            yield "".join(tags)


VALID = re.compile("a*b*g*x*y*$")


def struct_run(tags):
    """NodeStructureChecker accepts exactly prelude, content and epilogue in this order."""
    from ezodf.nodestructurechecker import NodeStructureChecker
    root = etree.Element("root")
    for t in tags:
        etree.SubElement(root, t)
    got = NodeStructureChecker("ab", "g", "xy").is_valid(root)
    same("valid", bool(got), bool(VALID.match(tags)))
    same("tags afterwards", "".join(e.tag for e in root), tags)
    same("valid with other content", bool(NodeStructureChecker("ab", "gi", "xy").is_valid(root)),
         bool(re.match("a*b*[gi]*x*y*$", tags)))
    return tags[:4]


CHECKS = [
    Check("P32", "model_checking", [Backups()],
          "every sequence of saving, saving under other names, switching backups on and off, edits, "
          "foreign changes and failures up to the depth, for every kind of document; states are "
          "folders"),
    Check("P33", "exploration", [Cases("packages", valid_cases, valid_run),
                                 Cases("bodies", struct_cases, struct_run)],
          "every subset of missing members and manifest entries, every order of tags up to the length"),
]
