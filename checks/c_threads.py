"""Two threads, each with a document of its own, under a controlled scheduler.

The threads are real threads; a trace function stops them at every source line
of the library and only one of them runs at a time.  A schedule is (first
thread, number of lines until the first switch, number of lines until the
second switch, ...); after the last switch each thread runs to its end."""
import io
import os
import sys
import threading

from lxml import etree

import ezodf
from ezodf import Heading, Paragraph, Span, Table
from ezodf import observer, wrapcache, xmlns
from ezodf.drawingpage import DrawingPage
from ezodf.timeparser import TimeParser
from ezodf.whitespaces import encode_whitespaces

from lib import mc, odf
from lib.mc import Check, Cases, Mismatch, need
from lib.odf import q

LIBRARY = os.path.join(os.path.abspath(mc.REPO), "ezodf") + os.sep
BLOCKED = 2.0       # seconds without progress: the thread waits for the other one


class Scheduler(object):
    """Runs two functions under one schedule."""

    def __init__(self, first, switches, opcodes=False):
        # opcodes: True for every byte code instruction, False for every line,
        # a file name for the lines of this file of the library
        self.cv = threading.Condition()
        self.turn = first
        self.switches = list(switches)
        self.left = self.switches.pop(0) if self.switches else None
        self.done = [False, False]
        self.count = [0, 0]
        self.free = False           # a thread is blocked: no control any more
        self.opcodes = opcodes is True
        self.library = LIBRARY + opcodes if isinstance(opcodes, str) else LIBRARY
        self.event = "opcode" if self.opcodes else "line"

    def trace(self, me):
        opcodes, event, library = self.opcodes, self.event, self.library

        def local(frame, ev, arg):
            if ev == event:
                self.point(me)
            return local

        def top(frame, ev, arg):
            if ev == "call" and frame.f_code.co_filename.startswith(library):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return top

    def point(self, me):
        self.count[me] += 1
        if self.free:
            return
        if self.left is not None:
            if self.left > 0:
                self.left -= 1
                return
            self.left = self.switches.pop(0) if self.switches else None
            if not self.done[1 - me]:
                self.give(me)

    def give(self, me):
        with self.cv:
            self.turn = 1 - me
            self.cv.notify_all()
            self.wait(me)

    def wait(self, me):
        while self.turn != me and not self.free and not self.done[1 - me]:
            before = sum(self.count)
            if not self.cv.wait(BLOCKED) and before == sum(self.count):
                # the running thread waits for something this thread holds
                self.free = True
                self.cv.notify_all()

    def body(self, me, fn, out):
        with self.cv:
            self.wait(me)
        sys.settrace(self.trace(me))
        try:
            out[me] = ("ok", fn())
        except BaseException as e:
            out[me] = ("error", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                self.turn = 1 - me
                self.cv.notify_all()

    def run(self, fns):
        out = [None, None]
        ts = [threading.Thread(target=self.body, args=(i, fns[i], out), daemon=True)
              for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            raise Mismatch("the threads do not come to an end")
        return out


# ---------------------------------------------------------------- programs

def strip(data):
    """Package as comparable value without dates."""
    out = []
    for n, _, d in odf.members(data):
        if n.endswith(".xml"):
            root = etree.fromstring(d)
            for e in list(root.iter()):
                if e.tag in (q("dc:date"), q("meta:creation-date")):
                    e.text = ""
            d = etree.tostring(root, method="c14n")
        out.append((n, d))
    return sorted(out)


def dump(node):
    return etree.tostring(node, method="c14n")


def p_encode(n):
    p = Paragraph("a%d  b\t\tc\n\n d   " % n)
    p.append_text("  x%d\n" % n)
    return p.plaintext(), dump(p.xmlnode)


def p_span(n):
    s = Span("s%d   e" % n)
    s.append_text("\t")
    return s.plaintext(), s.textlen, dump(s.xmlnode)


def p_cell(n):
    c = ezodf.Cell("v%d  w" % n)
    c.append_text(" \t%d" % n)
    a = c.value
    c.set_value(n + 0.5, currency="EUR")
    b = (c.value, c.currency, c.value_type)
    c.set_value(True)
    return a, b, c.value, dump(c.xmlnode)


def p_table(n):
    t = Table("t%d" % n, size=(2, 2))
    t[0, 0].set_value(n)
    t["B2"].set_value("b%d" % n)
    t.insert_rows(1, 1)
    t.append_columns(1)
    t.set_cell_span((0, 0), (1, 2))
    return t.nrows(), t.ncols(), [t[i, j].value for i in range(3) for j in range(3)], \
        dump(t.xmlnode)


def p_expand(n):
    rows = "".join('<table:table-row table:number-rows-repeated="%d"><table:table-cell '
                   'table:number-columns-repeated="%d" office:value-type="float" office:value="%d"/>'
                   '</table:table-row>' % (2, 2, n + i) for i in range(2))
    node = odf.xml('<table:table table:name="e%d"><table:table-column '
                   'table:number-columns-repeated="2"/>%s</table:table>' % (n, rows))
    t = Table(xmlnode=node)
    return t.nrows(), t.ncols(), [t[i, 1].value for i in range(4)], dump(node)


def p_new_text(n):
    d = ezodf.newdoc("odt")
    d.meta["title"] = "title %d" % n
    d.body.append(Heading("h%d  x" % n))
    return d.meta["title"], [c.plaintext() for c in d.body if c.kind == "Heading"], \
        dump(d.body.xmlnode)


def p_new_sheet(n):
    d = ezodf.newdoc("ods")
    d.sheets.append(Table("n%d" % n, size=(1, 1)))
    d.sheets[0]["A1"].set_value(n)
    s = d.sheets["n%d" % n]
    return [x.name for x in d.sheets], s["A1"].value, dump(d.body.xmlnode)


def p_pages(n):
    d = ezodf.newdoc("odp")
    d.pages.append(DrawingPage("p%d" % n))
    d.pages.insert(0, DrawingPage("q%d" % n))
    del d.pages[1]
    return [p.name for p in d.pages], dump(d.body.xmlnode)


FIELDS = ('<text:variable-decls><text:variable-decl text:name="v" office:value-type="float"/>'
          '</text:variable-decls><text:user-field-decls><text:user-field-decl text:name="u" '
          'office:value-type="string" office:string-value="0"/></text:user-field-decls>'
          '<text:p><text:variable-set text:name="v" office:value-type="float" office:value="1">1'
          '</text:variable-set><text:user-field-get text:name="u">0</text:user-field-get></text:p>')
ODT = odf.package("odt", FIELDS, [("Pictures/a.png", b"x" * 50, False)])
TEMPLATE = odf.package("ott", FIELDS, [("Pictures/a.png", b"x" * 50, False)])
ODS = odf.package("ods", '<table:table table:name="s"><table:table-column/><table:table-row>'
                  '<table:table-cell/></table:table-row></table:table>')


def p_open(n):
    d = ezodf.opendoc(ODT)
    d.body.variables["v"].value = n
    d.body.userfields["u"].value = "u%d" % n
    return d.body.variables["v"].value, d.body.userfields["u"].value, dump(d.body.xmlnode)


def p_meta(n):
    m = ezodf.meta.OfficeDocumentMeta()
    m["title"] = "t%d" % n
    m.keywords.add("k%d" % n)
    m.usertags.set("u%d" % n, "v%d" % n)
    m.count["page"] = n
    m.inc_editing_cycles()
    return m["title"], list(m.keywords), list(m.usertags), list(m.count), m["editing-cycles"]


def p_styles(n):
    s = ezodf.styles.OfficeDocumentStyles()
    st = ezodf.xmlns.fake_element('<style:style style:name="S%d" style:family="text"/>' % n)
    s.styles["S%d" % n] = st
    return s.styles["S%d" % n]["name"], dump(s.xmlnode)


def p_save(n):
    d = ezodf.opendoc(ODS)
    d.sheets[0]["A1"].set_value(n)
    with mc.scratch() as folder:
        path = os.path.join(folder, "t%d.ods" % n)
        d.saveas(path)
        with open(path, "rb") as f:
            data = f.read()
        names = os.listdir(folder)
    return strip(data), names


SHARED = []        # folder of this execution


def p_together(n):
    """Both threads read the same file and save into the same folder."""
    d = ezodf.opendoc(os.path.join(SHARED[0], "src.ods"))
    d.sheets[0]["A1"].set_value(n)
    path = os.path.join(SHARED[0], "t%d.ods" % n)
    d.saveas(path)
    with open(path, "rb") as f:
        data = f.read()
    return strip(data)


DOCS = {}


def m_files(n):
    """Only the saving of p_together, with a prepared document."""
    path = os.path.join(SHARED[0], "t%d.ods" % n)
    DOCS[n].saveas(path)
    with open(path, "rb") as f:
        data = f.read()
    return strip(data)


class Hears(object):
    def __init__(self, doc, log):
        self.doc, self.log = doc, log

    def get_xmlroot(self):
        return self.doc.body.get_xmlroot()

    def on_prepare_saving_handler(self, msg):
        self.log.append("before")

    def on_post_saving_handler(self, msg):
        self.log.append("after")


def p_events(n):
    d = ezodf.opendoc(ODT)
    log = []
    h = Hears(d, log)
    observer.subscribe("prepare_saving", h)
    observer.subscribe("post_saving", h)
    with mc.scratch() as folder:
        d.saveas(os.path.join(folder, "t%d.odt" % n))
    observer.unsubscripe("prepare_saving", h)
    observer.unsubscripe("post_saving", h)
    return log


def p_bytes(n):
    """As bytes, into a stream, and opened from both."""
    d = ezodf.opendoc(ODS if n else ODT)
    d.meta["title"] = "b%d" % n
    one = d.tobytes()
    d.docname = io.BytesIO()
    d.save()
    e = ezodf.opendoc(d.docname)
    return strip(one), strip(d.docname.getvalue()), e.meta["title"], e.doctype


FLAT = odf.flat("", body=FIELDS)


def p_flat(n):
    d = odf.open_any(FLAT)
    d.body.append(Paragraph("f%d" % n))
    d.body.userfields["u"].value = "u%d" % n
    d.inject_style('<style:style style:name="S%d" style:family="text"/>' % n)
    with mc.scratch() as folder:
        path = os.path.join(folder, "t%d.fodt" % n)
        d.saveas(path)
        e = ezodf.opendoc(path)
    for m in (d, e):
        m.meta["date"] = ""
    return dump(d.xmlnode), dump(e.xmlnode), e.meta["editing-cycles"]


def p_template(n):
    d = ezodf.newdoc("odt", "new%d.odt" % n, template=TEMPLATE)
    d.body.append(Paragraph("t%d" % n))
    d.inject_style('<style:style style:name="S%d" style:family="text"/>' % n)
    d.filemanager.register("Pictures/n%d.png" % n, b"n%d" % n, "image/png")
    return d.mimetype, d.docname, strip(d.tobytes())


def p_spans(n):
    t = Table("s%d" % n, size=(3, 3))
    t.set_cell_span((n, 0), (2, 2))
    t.set_cell_span("C1", (3, 1))
    t.remove_cell_span((n, 0))
    t.clear()
    t.delete_rows(0, 1)
    t.delete_columns(1, 1)
    return dump(t.xmlnode)


def p_copy(n):
    t = Table("c%d" % n, size=(1, 2))
    t["A1"].set_value("x%d" % n)
    u = t.copy("d%d" % n)
    u["A1"].set_value("y%d" % n)
    u.append_rows(1)
    return t["A1"].value, u["A1"].value, u.nrows(), dump(t.xmlnode), dump(u.xmlnode)


def p_list(n):
    l = ezodf.ezlist(["i%d  1" % n, "i%d 2" % n], header="h%d" % n)
    return l.header.plaintext(), [i.plaintext() for i in l.iteritems()], dump(l.xmlnode)


def p_times(n):
    c = ezodf.Cell()
    c.set_value("2012-01-0%dT10:00:0%d" % (n + 1, n), "date")
    return c.value, str(TimeParser.parse("PT%dH" % (n + 1))), dump(c.xmlnode)


def p_fields(n):
    """Variables and user fields: new types, every instance of them."""
    body = ezodf.opendoc(ODT).body
    v, u = body.variables["v"], body.userfields["u"]
    out = []
    for value in (n + 0.5, "w%d" % n, bool(n), n):
        for x in (v, u):
            x.value = value
            out.append((x.value, x.type))
    out.append(["v" in body.variables, "w%d" % n in body.variables])
    out.append([[i.value for i in x.instances] for x in (v, u)])
    return out, dump(body.xmlnode)


def p_manifest(n):
    m = ezodf.manifest.Manifest()
    m.add("a%d" % n, "image/%d" % n)
    m.add("b", "b%d" % n, "1.%d" % n)
    m.add("a%d" % n, "text/%d" % n)
    m.add("META-INF/manifest.xml", "x")
    m.remove("b")
    m.remove("c")
    return m.find("b") is None, m.find("a%d" % n).get(q("manifest:media-type")), m.tobytes()


def p_moves(n):
    d = ezodf.newdoc("ods")
    for i in range(3):
        d.sheets += Table("%d-%d" % (n, i), size=(1, 1))
    d.sheets.insert(0, d.sheets[2])
    d.sheets[1] = Table("r%d" % n, size=(1, 1))
    del d.sheets["%d-%d" % (n, 1)]
    names = list(d.sheets.names())
    return names, [d.sheets.index(d.sheets[x]) for x in names], dump(d.body.xmlnode)


def p_children(n):
    p = Paragraph("t%d" % n)
    a, b = Span("a%d" % n), Span("b%d" % n)
    p.append(a)
    p.insert(0, b)
    p.insert_before(a, Span("c%d" % n))
    p.replace(b, Heading("h%d" % n))
    found = [x.plaintext() for x in p.findall(Span.TAG)], p.find(Heading.TAG).plaintext()
    del p[0]
    p.remove(a)
    p.set_attr("k", "v%d" % n)
    p[0].tail = "tail%d" % n
    p.append(a)
    return found, p.get_attr("k"), len(p), p.index(a), p[0].tail, p.plaintext(), dump(p.xmlnode)


def p_props(n):
    layout = xmlns.wrap(odf.xml('<style:page-layout style:name="L%d"/>' % n))
    layout["page-usage"] = "left" if n else "right"
    face = xmlns.wrap(odf.xml('<style:font-face style:name="F%d"/>' % n))
    h = Heading("h%d" % n, outline_level=n + 1)
    h.start_value = n + 2
    h.restart_numbering = bool(n)
    s = ezodf.Section("sec%d" % n)
    s.protected = True
    got = s.protected
    del s.xmlnode.attrib[q("text:protection-key")]
    return layout["page-usage"], layout["name"], face["name"] if "name" in face.ATTRIBUTEMAP else 0, \
        h.outline_level, h.start_value, h.restart_numbering, got, dump(layout.xmlnode), \
        dump(h.xmlnode), dump(s.xmlnode)


def p_grid(n):
    t = Table("g%d" % n, size=(2, 3))
    for i, row in enumerate(t.rows()):
        for j, c in enumerate(row):
            c.set_value("%d-%d-%d" % (n, i, j))
    t.row_info(1).visibility = "collapse"
    t.column_info("C1").style_name = "c%d" % n
    t["A2"].content_validation_name = "v%d" % n
    t["B1"] = ezodf.Cell(n)
    t.delete_columns(0, 1)
    return [[c.value for c in col] for col in t.columns()], [c.value for c in t.row(-1)], \
        t.row_info(1).visibility, t.column_info(-1).style_name, dump(t.xmlnode)


# small programs for more switches

def m_encode(n):
    return [dump(e) if not isinstance(e, str) else e
            for e in map(lambda x: getattr(x, "xmlnode", x), encode_whitespaces("a%d  b" % n))]


def m_names(n):
    out = [xmlns.CN(t) for t in ("text:p", "text:span", "table:table", "text:p")]
    if n:
        xmlns.XML.register_namespace("ezmc%d" % n, "urn:ezmc:%d" % n)
        out.append(xmlns.CN("ezmc%d:x" % n))
    return out


def m_cache(n):
    node = xmlns.etree.Element(xmlns.CN("table:table-row"))
    w = wrapcache.wrap(node)
    same = wrapcache.wrap(node) is w
    wrapcache.remove(w)
    return same, w.kind, w.xmlnode is node


def m_wrap(n):
    return [xmlns.wrap(odf.xml("<%s/>" % t)).kind
            for t in ("text:p", "text:h", "table:table-cell", "text:unknown")]


class Root(object):
    def __init__(self, node, log):
        self.node, self.log = node, log

    def get_xmlroot(self):
        return self.node

    def on_prepare_saving_handler(self, msg):
        self.log.append(msg)


def m_events(n):
    log = []
    h = Root(etree.Element("r"), log)
    observer.subscribe("prepare_saving", h)
    observer.broadcast("prepare_saving", msg="m%d" % n, root=h.node)
    observer.unsubscripe("prepare_saving", h)
    observer.broadcast("prepare_saving", msg="x%d" % n, root=h.node)
    return log


def m_time(n):
    return str(TimeParser.parse("PT%dH" % (n + 1))), str(TimeParser.parse("2012-01-0%d" % (n + 1)))


def m_address(n):
    from_name = ezodf.tableutils.address_to_index
    return [from_name(a) for a in ("A1", "AB%d" % (n + 7))], \
        ezodf.tableutils.get_cell_index((n, 2))


def m_style(n):
    st = xmlns.fake_element('<style:style style:name="S%d" style:family="text"/>' % n)
    st["display-name"] = "x%d" % n
    return st["name"], st["display-name"], st["family"]


SMALL = [m_encode, m_names, m_cache, m_wrap, m_events, m_time, m_address, m_style]
PROGRAMS = [p_encode, p_span, p_cell, p_table, p_expand, p_new_text, p_new_sheet, p_pages, p_open,
            p_meta, p_styles, p_save, p_together, p_events, p_bytes, p_flat, p_template,
            p_spans, p_copy, p_list, p_times, p_fields, p_manifest, p_moves, p_children,
            p_props, p_grid]
NAMES = {f.__name__[2:]: f for f in PROGRAMS}
FOLDER = ("together", "_files")
NAMES["_files"] = m_files
NAMES.update({"_" + f.__name__[2:]: f for f in SMALL})


def in_folder(fn):
    """Execute with a folder both threads can use; only the saved documents
    are left in it."""
    with mc.scratch() as folder:
        SHARED[:] = [folder]
        with open(os.path.join(folder, "src.ods"), "wb") as f:
            f.write(ODS)
        for n in (0, 1):
            DOCS[n] = ezodf.opendoc(os.path.join(folder, "src.ods"))
            DOCS[n].sheets[0]["A1"].set_value(n)
        result = fn()
        left = [n for n in sorted(os.listdir(folder)) if n not in ("src.ods", "t0.ods", "t1.ods")]
        need(not left, "files left behind in the folder: %s", left)
    return result


def cold():
    """The state of the name cache of a program which just started."""
    cache = getattr(xmlns.XML, "_cache", None)
    if isinstance(cache, dict):
        cache.clear()


_serial = {}


def serial(name, n, opcodes):
    """(result of the program alone, number of its steps)."""
    key = (name, n, opcodes)
    if key not in _serial:
        cold()
        s = Scheduler(n, [], opcodes)
        fns = [lambda: None, lambda: None]
        fns[n] = lambda: NAMES[name](n)
        out = in_folder(lambda: s.run(fns)) if name in FOLDER else s.run(fns)
        if out[n][0] != "ok":
            raise Mismatch("program %s fails alone: %s" % (name, out[n][1]))
        _serial[key] = (out[n][1], s.count[n])
    return _serial[key]


def run(case):
    a, b, opcodes, first, switches = case
    want = [serial(a, 0, opcodes)[0], serial(b, 1, opcodes)[0]]
    cold()
    s = Scheduler(first, switches, opcodes)
    fns = [lambda: NAMES[a](0), lambda: NAMES[b](1)]
    out = in_folder(lambda: s.run(fns)) if a in FOLDER or b in FOLDER else s.run(fns)
    for i in (0, 1):
        need(out[i][0] == "ok", "thread %d (%s) fails: %s", i, (a, b)[i], out[i][1])
        need(out[i][1] == want[i], "thread %d (%s): got %s, alone it gives %s", i, (a, b)[i],
             short(out[i][1], want[i]), short(want[i], out[i][1]))
    return (a, b, opcodes, tuple(s.count))


def short(x, other):
    if isinstance(x, tuple) and isinstance(other, tuple) and len(x) == len(other):
        return repr([p for p, o in zip(x, other) if p != o])[:400]
    return repr(x)[:400]


def steps(name, n, opcodes):
    try:
        return serial(name, n, opcodes)[1]
    except Mismatch:
        return 0


def one_switch(tier):
    """Every place of one switch, for pairs of programs."""
    names = [f.__name__[2:] for f in PROGRAMS]
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if tier == "quick" and not (i == j or (i + 1) % len(names) == j):
                continue
            if i > j and not (i + 1) % len(names) == j:
                continue
            for first in (0, 1):
                total = steps((a, b)[first], first, False)
                for k in range(total):
                    yield (a, b, False, first, (k,))


def two_switches(tier):
    """Every pair of places of two switches, for small programs."""
    names = ["_" + f.__name__[2:] for f in SMALL]
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i:]]
    if tier == "quick":
        pairs = [(a, b) for a, b in pairs if a == b]
    else:
        pairs += [("span", "span"), ("styles", "styles"), ("times", "span"), ("meta", "meta"),
                  ("encode", "_encode"), ("cell", "_encode"), ("list", "_encode")]
    for a, b in pairs:
        for first in (0, 1):
            x = (a, b)[first]
            y = (a, b)[1 - first]
            for k in range(steps(x, first, False)):
                for m in range(steps(y, 1 - first, False)):
                    yield (a, b, False, first, (k, m))


def folder_switches(tier):
    """Two threads save into the same folder: every pair of places of two
    switches in the code which works with files."""
    mode = "filemanager.py" if tier == "quick" else False
    n = [steps("_files", i, mode) for i in (0, 1)]
    for first in (0, 1):
        for k in range(n[first]):
            for m in range(n[1 - first]):
                yield ("_files", "_files", mode, first, (k, m))


def three_switches(tier):
    names = ["_" + f.__name__[2:] for f in SMALL]
    for a in names:
        n0, n1 = steps(a, 0, False), steps(a, 1, False)
        if max(n0, n1) > (12 if tier == "quick" else 60):
            continue
        for k in range(n0):
            for m in range(n1):
                for l in range(n0 - k):
                    yield (a, a, False, 0, (k, m, l))


def opcode_switch(tier):
    """One switch at every byte code instruction."""
    names = ["_" + f.__name__[2:] for f in SMALL]
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i:]]
    if tier != "quick":
        big = [f.__name__[2:] for f in PROGRAMS]
        pairs += [(a, a) for a in big] + [(a, "encode") for a in big]
    for a, b in pairs:
        for first in (0, 1):
            for k in range(steps((a, b)[first], first, True)):
                yield (a, b, True, first, (k,))


CHECKS = [
    Check("P23", "model_checking",
          [Cases("one switch", one_switch, run), Cases("two switches", two_switches, run),
           Cases("same folder", folder_switches, run),
           Cases("three switches", three_switches, run),
           Cases("byte code switch", opcode_switch, run)],
          "all schedules of two threads with one preemption at every source line of the library, "
          "for pairs of programs; with two preemptions for small programs; with one preemption at "
          "every byte code instruction; each thread's result is compared with its result alone",
          ["C code (lxml, zipfile) is atomic", "name cache empty at the start of every execution"]),
]
