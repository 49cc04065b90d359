"""Observer, time values, typed properties, name spaces and classes, manifest."""
import datetime as dt
import gc
import io
import itertools
import re

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, List, ListItem, NumberedParagraph, Paragraph, Section,
                   Span, Spaces, Table)
from ezodf import observer as ob
from ezodf.drawingpage import DrawingPage
from ezodf.manifest import Manifest
from ezodf.table import TableColumn, TableRow
from ezodf.text import ListHeader
from ezodf.timeparser import TimeParser
from ezodf import xmlns

from checks import alias, domain, sizes
from lib import odf
from lib.mc import Cases, Check, Machine, Mismatch, need, rejected, same
from lib.odf import q, tree, xml


class St(object):
    pass


# ---------------------------------------------------------------- P24 events

class Listener(object):
    """Counts its calls; optionally changes the subscriptions."""

    def __init__(self, name, log, root=None):
        self.name, self.log, self.root = name, log, root
        self.action = None

    def on_a_handler(self, msg):
        self.log.append((self.name, "a", msg))
        if self.action:
            self.action()

    def on_b_handler(self, msg):
        self.log.append((self.name, "b", msg))


class RootListener(Listener):
    def get_xmlroot(self):
        return self.root


class Observers(Machine):
    name = "observer"
    NAMES = ("A1", "A2", "B", "plain")      # two of document A, one of B, one without document

    def configs(self, tier):
        n = 3 if tier == "quick" else 4
        return [("own", n, False), ("global", 2, False), ("own", 8 if tier == "quick" else 20, True)]

    def ops(self, cfg):
        o = [("sub", e, n) for e in "ab" for n in self.NAMES]
        o += [("uns", e, n) for e in "ab" for n in self.NAMES]
        o += [("drop", n) for n in self.NAMES] + [("new", "A1"), ("new", "plain")]
        o += [("cast", e, r) for e in "ab" for r in (None, "A", "B", "C")]
        o += [("badsub",), ("selfuns", "A1"), ("selfuns", "plain"), ("subother",), ("cast", "zz", None)]
        return o

    def init(self, cfg):
        st = St()
        st.cfg = cfg
        if cfg == "own":
            o = ob.Observer()
            st.sub, st.uns, st.cast = o.subscribe, o.unsubscribe, o.broadcast
        else:
            clear_global()
            st.sub, st.uns, st.cast = ob.subscribe, ob.unsubscripe, ob.broadcast
        st.roots = {n: etree.Element("root" + n) for n in "ABC"}
        st.log = []
        st.live = {}
        for n in self.NAMES:
            self.make(st, n)
        st.subs = {}        # event -> set of names
        st.tick = 0
        return st

    def make(self, st, n):
        cls = Listener if n == "plain" else RootListener
        st.live[n] = cls(n, st.log, st.roots.get(n[0]))

    def step(self, st, op):
        k = op[0]
        if k == "sub":
            if op[2] in st.live:
                st.sub(op[1], st.live[op[2]])
                st.subs.setdefault(op[1], set()).add(op[2])
        elif k == "uns":
            if op[2] not in st.live:
                return
            if op[2] in st.subs.get(op[1], ()):
                st.uns(op[1], st.live[op[2]])
                st.subs[op[1]].discard(op[2])
            else:
                rejected("unsubscribe of a stranger", lambda: st.uns(op[1], st.live[op[2]]), KeyError)
        elif k == "drop":
            if st.live.pop(op[1], None) is not None:
                for s in st.subs.values():
                    s.discard(op[1])
        elif k == "new":
            if op[1] not in st.live:
                self.make(st, op[1])
        elif k == "cast":
            self.cast(st, op[1], op[2])
        elif k == "badsub":
            rejected("subscribe without a handler",
                     lambda: st.sub("c", st.live.get("B", self)), AttributeError)
            rejected("subscribe without a handler", lambda: st.sub("a", object()), AttributeError)
        elif k == "selfuns":
            # a handler which unsubscribes its own object while broadcasting
            n = op[1]
            if n in st.subs.get("a", ()):
                st.live[n].action = lambda: st.uns("a", st.live[n])
                self.cast(st, "a", None)
                st.live[n].action = None
                st.subs["a"].discard(n)
        elif k == "subother":
            # a handler which subscribes another object while broadcasting
            if "A1" in st.subs.get("a", ()) and "plain" in st.live and \
                    "plain" not in st.subs["a"]:
                st.live["A1"].action = lambda: st.sub("a", st.live["plain"])
                del st.log[:]
                st.cast("a", msg="m")
                st.live["A1"].action = None
                got = sorted(st.log)
                want = sorted((n, "a", "m") for n in st.subs["a"])
                need(got in (want, sorted(want + [("plain", "a", "m")])),
                     "delivered to %r, expected %r", got, want)
                st.subs["a"].add("plain")

    def cast(self, st, e, r):
        st.tick += 1
        del st.log[:]
        msg = ("msg", st.tick)
        root = st.roots[r] if r else None
        if r is None:
            res = st.cast(e, msg)
        else:
            res = st.cast(e, msg=msg, root=root)
        want = sorted((n, e, msg) for n in st.subs.get(e, ()) if r is None or n[0] == r)
        same("delivered", sorted(st.log), want)

    def observe(self, st):
        for e in "ab":
            for r in (None, "A", "B", "C"):
                self.cast(st, e, r)
        st.live.clear()

    def canon(self, st):
        return repr((sorted((e, sorted(s)) for e, s in st.subs.items() if s), st.tick > 8))


Observers.canon = lambda self, st: st.key
_obs = Observers.observe


def _observe(self, st):
    st.key = repr((sorted((e, sorted(s)) for e, s in st.subs.items() if s), sorted(st.live)))
    _obs(self, st)


Observers.observe = _observe


RESULTS = (None, False, True, 0, "x", StopIteration, NotImplemented)


def result_cases(tier):
    """Handlers may return anything."""
    for rooted in (False, True):
        for n in (1, 2, 3):
            for results in itertools.product(range(len(RESULTS)), repeat=n):
                yield (rooted, results)


def result_run(case):
    rooted, results = case
    o, log, root = ob.Observer(), [], etree.Element("root")

    class Answering(RootListener):
        def on_a_handler(self, msg):
            log.append(self.name)
            return self.answer
    ls = []
    for i, r in enumerate(results):
        l = Answering(i, log, root)
        l.answer = RESULTS[r]
        o.subscribe("a", l)
        ls.append(l)
    for _ in range(2):
        o.broadcast("a", msg=1, root=root if rooted else None)
        same("received by", sorted(log), list(range(len(ls))))
        del log[:]
    return case


SAVE_DOCS = ("odt", "ods", "odp", "bytes", "flat")


def save_cases(tier):
    for d in SAVE_DOCS:
        for how in ("save", "saveas", "stream"):
            for other in (None, "odt", "flat"):
                for times in (1, 2, 3):
                    yield (d, how, other, times)


class SaveListener(object):
    def __init__(self, doc, log, name, target):
        self.doc, self.log, self.name, self.target = doc, log, name, target

    def get_xmlroot(self):
        return self.doc.body.get_xmlroot()

    def on_prepare_saving_handler(self, msg):
        self.log.append((self.name, "prepare", self.content()))
        self.doc.meta["title"] = "prepared %d" % len(self.log)

    def on_post_saving_handler(self, msg):
        self.log.append((self.name, "post", self.content()))

    def content(self):
        """title in the saved file (None: there is none)"""
        t = self.target
        data = t.getvalue() if hasattr(t, "getvalue") else \
            open(t, "rb").read() if t and __import__("os").path.exists(t) else b""
        if not data:
            return None
        if data[:2] == b"PK":
            data = odf.part(data, "meta.xml")
        e = etree.fromstring(data).find(".//" + q("dc:title"))
        return e.text if e is not None else ""


def clear_global():
    """Forget the listeners left over from other executions."""
    try:
        ob._global_observer._listeners.clear()
    except AttributeError:
        gc.collect()


def open_kind(kind):
    if kind == "flat":
        return odf.open_any(odf.flat(""))
    if kind == "bytes":
        return ezodf.opendoc(odf.package("ods"))
    return ezodf.newdoc(kind)


def save_run(case):
    import tempfile, shutil, os
    kind, how, other, times = case
    clear_global()
    doc = open_kind(kind)
    doc.backup = False
    log, olog = [], []
    tmp = tempfile.mkdtemp(prefix="ezmc")
    try:
        path = os.path.join(tmp, "x.odt")
        target = io.BytesIO() if how == "stream" else path
        l = SaveListener(doc, log, "doc", target)
        ob.subscribe("prepare_saving", l)
        ob.subscribe("post_saving", l)
        if other:
            odoc = open_kind(other)
            lo = SaveListener(odoc, olog, "other", None)
            ob.subscribe("prepare_saving", lo)
            ob.subscribe("post_saving", lo)
        if how != "saveas":
            doc.docname = target
        want, last = [], None
        for i in range(times):
            if how == "saveas":
                doc.saveas(path)
            else:
                doc.save()
            want.append(("doc", "prepare", last))
            last = "prepared %d" % (2 * i + 1)
            want.append(("doc", "post", last))
            same("events of the saved document", log, want)
            same("events of the other document", olog, [])
        return case
    finally:
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- P26 time

def dur_cases(tier):
    big = tier != "quick"
    parts = [(None, 0, 1, 9, 12), (None, 0, 1, 11), (None, 0, 1, 30, 400)]
    times = [(None, 0, 1, 23, 25), (None, 0, 5, 59), (None, "0", "7", "59", "1,5", "0,0001",
                                                       "59,9999", "3,25")]
    for neg in ("", "-"):
        for y, mo, d in itertools.product(*parts):
            for h, mi, s in itertools.product(*times):
                yield ("parse", neg, y, mo, d, h, mi, s)
    days = [0, 1, 2, 30, 365, 999]
    secs = [0, 1, 59, 60, 61, 3599, 3600, 3601, 7322, 43199, 86399]
    mics = [0, 100, 200, 5000, 123400, 500000, 999900]
    if big:
        days = list(range(0, 40)) + [364, 365, 366, 999, 100000]
        secs = sorted(set(list(range(0, 86400, 997)) + secs))
    for neg in (False, True):
        for t in itertools.product(days, secs, mics):
            yield ("duration", neg) + t
    for s in range(0, 86400, 61 if not big else 7):
        yield ("duration", False, 0, s, 0)
    for y in (1, 4, 99, 999, 1000, 1582, 1899, 1900, 1999, 2000, 2011, 2012, 2100, 9999):
        for m in range(1, 13):
            for d in (1, 9, 10, 28, 29, 30, 31):
                yield ("date", y, m, d)
    for y, m, d in ((1, 1, 1), (1970, 1, 1), (2000, 2, 29), (2011, 12, 31), (9999, 12, 31)):
        for h in range(24):
            for mi in (0, 1, 9, 10, 30, 59):
                for s in (0, 1, 9, 10, 59):
                    yield ("datetime", y, m, d, h, mi, s)
                    if mi in (0, 59) and s in (0, 59):
                        for mic in (1, 500000, 999999):
                            yield ("datetime", y, m, d, h, mi, s, mic)
    for t in ("", "P", "PT", "-P", "x", "2000", "2000-01", "2000-13-01", "2000-00-10", "2000-02-30",
              "2011-1-32", "2000-01-01T", "2000-01-01T12", "2000-01-01T12:00", "2000-01-01T24:00:00",
              "2000-01-01T12:60:00", "2000-01-01 12:00:00", "2000-01-01T12:00:00X", "P1", "P1H",
              "PT1D", "P1DT1D", "PT1", "P1S", "T1H", "P1M1Y", "PT1S1M", "P-1D", "--P1D", "+P1D",
              "PT1,S", "PT,5S", "PT1,5M", "p1d", "PT1H ", " PT1H", "P1D1Y", "PT1H2H", "PD", "PTH",
              "20000101", "-2000-01-01", "01-01-2000", "2000/01/01", "P1D\n", "PT1H\n", "-PT1,5S\n",
              "2000-01-01\n", "2000-01-01T12:00:00\n", "\nP1D", "P1D\nP1D"):
        yield ("bad", t)
    for neg in (False, True):
        for days, secs in itertools.product((0, 1, 400), (0, 1, 59, 3600, 86399)):
            for mic in (1, 49, 50, 99, 101, 149, 151, 999, 1001, 99999, 100001, 123456, 999949,
                        999951, 999999):
                yield ("fraction", neg, days, secs, mic)


def dur_run(case):
    k = case[0]
    if k == "parse":
        _, neg, y, mo, d, h, mi, s = case
        text = neg + "P" + "".join("%s%s" % (v, u) for v, u in ((y, "Y"), (mo, "M"), (d, "D"))
                                   if v is not None)
        tpart = "".join("%s%s" % (v, u) for v, u in ((h, "H"), (mi, "M"), (s, "S"))
                        if v is not None)
        if tpart:
            text += "T" + tpart
        if text in ("P", "-P"):
            return None
        sec = dt.timedelta(0)
        if s is not None:
            whole, _, frac = s.partition(",")
            sec = dt.timedelta(seconds=int(whole), microseconds=int((frac + "000000")[:6]))
        want = dt.timedelta(days=(y or 0) * 365 + (mo or 0) * 30 + (d or 0), hours=h or 0,
                            minutes=mi or 0) + sec
        if neg:
            want = -want
        p = TimeParser(text)
        same("value of %r" % text, p.value, want)
        same("is_duration", (p.is_duration, p.is_date, p.has_time), (True, False, False))
        same("parse()", TimeParser.parse(text), want)
        # its written form denotes the same value
        same("value of the text of %r" % text, TimeParser(str(p)).value, want)
        return repr(want)
    if k == "duration":
        _, neg, days, secs, mics = case
        v = dt.timedelta(days, secs, mics)
        if neg:
            v = -v
        p = TimeParser(v)
        text = str(p)
        want = "%sP%sT%02dH%02dM%02d%sS" % (
            "-" if v < dt.timedelta(0) else "", "%dD" % days if days else "", secs // 3600,
            secs // 60 % 60, secs % 60, ",%04d" % (mics // 100) if mics else "")
        same("text of %r" % v, text, want)
        same("timestr", p.timestr, want)
        same("value of %r" % text, TimeParser(text).value, v)
        return text
    if k == "fraction":      # more than four digits: the closest or the next smaller value
        v = dt.timedelta(*case[2:])
        if case[1]:
            v = -v
        text = str(TimeParser(v))
        got = TimeParser(text)
        need(abs(got.value - v) < dt.timedelta(microseconds=100), "value of %r: %r, expected %r",
             text, got.value, v)
        return text
    if k == "date":
        try:
            v = dt.date(*case[1:])
        except ValueError:
            rejected("TimeParser of %r" % (case,),
                     lambda: TimeParser("%04d-%02d-%02d" % case[1:]), ValueError)
            return None
        p = TimeParser(v)
        same("text", str(p), "%04d-%02d-%02d" % case[1:])
        r = TimeParser(str(p))
        same("value", r.value, v)
        same("kind", (r.is_date, r.has_time, r.is_duration), (True, False, False))
        same("text again", str(r), str(p))
        return str(p)
    if k == "datetime":
        v = dt.datetime(*case[1:])
        p = TimeParser(v)
        same("text", str(p), "%04d-%02d-%02dT%02d:%02d:%02d" % case[1:7])
        r = TimeParser(str(p))
        same("value", r.value, v.replace(microsecond=0))
        same("kind", (r.is_date, r.has_time, r.is_duration), (True, True, False))
        same("text again", str(r), str(p))
        return str(p)
    text = case[1]
    if text in ("P", "PT", "-P", "P1DT"):
        return None      # no component at all: not specified by the library
    rejected("TimeParser(%r)" % text, lambda: TimeParser(text), ValueError)
    return case


# ---------------------------------------------------------------- P28 typed properties

S = ("v1", "x <&\u00e4>\" y", "")
B = (True, False)
I = (-3, 0, 1, 2, 9, "4")

# class -> property -> (kind, attribute)
PROPS = {
    "Span": {"style_name": ("str", "text:style-name")},
    "Paragraph": {"style_name": ("str", "text:style-name"),
                  "cond_style_name": ("str", "text:cond-style-name"), "ID": ("str", "text:id")},
    "Heading": {"style_name": ("str", "text:style-name"),
                "outline_level": ("lim", "text:outline-level"),
                "restart_numbering": ("bool", "text:restart-numbering"),
                "suppress_numbering": ("bool", "text:is-list-header"),
                "start_value": ("start", "text:start-value"),
                "formatted_number": ("num", None)},
    "NumberedParagraph": {"level": ("lim", "text:level"),
                          "start_value": ("start", "text:start-value"),
                          "formatted_number": ("num", None)},
    "Hyperlink": {"style_name": ("str", "text:style-name"), "name": ("str", "office:name"),
                  "href": ("str", "xlink:href"), "target_frame": ("frame", None)},
    "ListItem": {"start_value": ("start", "text:start-value"), "formatted_number": ("num", None)},
    "List": {"style_name": ("str", "text:style-name"),
             "continue_numbering": ("bool", "text:continue-numbering")},
    "Section": {"style_name": ("str", "text:style-name"), "name": ("str", "text:name"),
                "protected": ("prot", "text:protected")},
    "Table": {"name": ("tname", "table:name"), "style_name": ("str", "table:style-name"),
              "protected": ("prot", "table:protected"), "print_": ("bool", "table:print")},
    "TableRow": {"style_name": ("str", "table:style-name"),
                 "default_cell_style_name": ("str", "table:default-cell-style-name"),
                 "visibility": ("vis", "table:visibility")},
    "TableColumn": {"style_name": ("str", "table:style-name"),
                    "default_cell_style_name": ("str", "table:default-cell-style-name"),
                    "visibility": ("vis", "table:visibility")},
    "Cell": {"style_name": ("str", "table:style-name"), "formula": ("str", "table:formula"),
             "protected": ("bool", "table:protect"),
             "content_validation_name": ("str", "table:content-validation-name")},
    "DrawingPage": {"name": ("pname", "draw:name")},
    "Spaces": {"count": ("count", "text:c")},
}
VALS = {
    "str": S, "bool": B + (1, 0, "", "x"), "lim": I, "start": I, "num": ("1.", "a <b>", 7),
    "frame": ("_blank", "_self", "_top", "frame 1"), "prot": B,
    "tname": ("Sheet", "it's \"x\"", " a\tb\rc ", "\u00e4"), "vis": ("visible", "collapse", "filter"),
    "pname": ("page1", "p <2>"), "count": (1, 2, 5, "3"),
}
BAD = {
    "vis": ("hidden", "", None, "Visible", True), "frame": ("", None), "tname": ("", " ", "'\""),
    "pname": ("", None), "lim": ("x", None), "start": ("x", None), "count": ("x", None),
    "str": (5,), "bool": (), "num": (), "prot": (),
}
XML_SRC = {
    "Span": '<text:span>t<text:s text:c="2"/></text:span>',
    "Paragraph": '<text:p text:style-name="given">t<text:span>u</text:span></text:p>',
    "Heading": '<text:h text:outline-level="3" text:is-list-header="true" text:start-value="4" '
               'text:style-name="g">t</text:h>',
    "NumberedParagraph": '<text:numbered-paragraph text:level="2"><text:h>t</text:h>'
                         '</text:numbered-paragraph>',
    "Hyperlink": '<text:a xlink:href="http://g" office:name="n">t</text:a>',
    "ListItem": '<text:list-item text:start-value="6"><text:p>t</text:p></text:list-item>',
    "List": '<text:list text:continue-numbering="true"><text:list-item><text:p>t</text:p>'
            '</text:list-item></text:list>',
    "Section": '<text:section text:name="g" text:protected="true" text:protection-key="k"><text:p>t'
               '</text:p></text:section>',
    "Table": '<table:table table:name="G" table:print="true" table:protected="true" '
             'table:protection-key="k"><table:table-column/><table:table-row><table:table-cell/>'
             '</table:table-row></table:table>',
    "TableRow": '<table:table-row table:visibility="filter"><table:table-cell/></table:table-row>',
    "TableColumn": '<table:table-column table:style-name="co1" table:visibility="collapse"/>',
    "Cell": '<table:table-cell table:protect="true" table:formula="of:=1" office:value-type="float" '
            'office:value="1"><text:p>1</text:p></table:table-cell>',
    "DrawingPage": '<draw:page draw:name="G"><draw:frame/></draw:page>',
    "Spaces": '<text:s text:c="4"/>',
}
NEW = {
    "Span": lambda: Span("t"), "Paragraph": lambda: Paragraph("t"), "Heading": lambda: Heading("t"),
    "NumberedParagraph": lambda: NumberedParagraph(Paragraph("t")),
    "Hyperlink": lambda: Hyperlink("http://h", "t"), "ListItem": lambda: ListItem("t"),
    "List": lambda: ezodf.ezlist(("t",)), "Section": lambda: Section(),
    "Table": lambda: Table("N", size=(2, 2)), "TableRow": lambda: TableRow(2),
    "TableColumn": lambda: TableColumn(), "Cell": lambda: Cell("t"),
    "DrawingPage": lambda: DrawingPage("N"), "Spaces": lambda: Spaces(2),
}
DELETABLE = ("str", "bool", "lim")


def norm_name(v):
    for ch in "\t\r'\"":
        v = v.replace(ch, " ")
    return v.strip()


class Props(Machine):
    name = "properties"

    def configs(self, tier):
        n = 2 if tier == "quick" else 3
        out = [((c, src), n, False) for c in PROPS for src in ("new", "xml")]
        out += [((c, "intable"), n, False) for c in ("TableRow", "TableColumn", "Cell")]
        out += [((c, "low" + v), n - 1, False) for c in ("Heading", "NumberedParagraph")
                for v in ("0", "-1", "-12", "11", "1000")]
        return out

    def ops(self, cfg):
        o = []
        for p, (kind, _) in sorted(PROPS[cfg[0]].items()):
            o += [("set", p, v) for v in VALS[kind]]
            if BAD[kind]:
                o.append(("bad", p))
            if kind in DELETABLE:
                o.append(("del", p))
        return o + [("read",)]

    def init(self, cfg):
        cls, src = cfg
        st = St()
        st.cls = cls
        st.key = False
        if src == "new":
            st.o = NEW[cls]()
        elif src == "xml":
            st.o = xmlns.wrap(xml(XML_SRC[cls]))
        elif src.startswith("low"):
            # values out of range are read as the limit
            st.o = xmlns.wrap(xml(re.sub('level="."', 'level="%s"' % src[3:], XML_SRC[cls])))
        else:
            t = Table("T", size=(2, 3))
            st.t = t
            st.o = {"TableRow": lambda: t.row_info(1), "TableColumn": lambda: t.column_info(2),
                    "Cell": lambda: t["B2"]}[cls]()
        x = st.o.xmlnode
        st.attrs = dict(x.attrib)
        if cls in ("Section", "Table"):
            k = [a for a in x.attrib if a.endswith("protection-key")]
            st.key = bool(k)
            st.attrs.pop(q("text:protection-key"), None)
            st.attrs.pop(q("table:protection-key"), None)
        st.body = self.body(st)
        st.num = None
        return st

    def body(self, st):
        x = st.o.xmlnode
        return (x.tag, x.text or "",
                tuple((tree(c), c.tail or "") for c in x if c.tag != q("text:number")))

    def step(self, st, op):
        k = op[0]
        o = st.o
        if k == "read":
            st.o = xmlns.wrap(etree.fromstring(etree.tostring(o.xmlnode)))
            return
        p = op[1]
        kind, attr = PROPS[st.cls][p]
        a = q(attr) if attr else None
        if k == "bad":
            for v in BAD[kind]:
                rejected("%s = %r" % (p, v), lambda: setattr(o, p, v))
        elif k == "del":
            if a in st.attrs:
                delattr(o, p)
                del st.attrs[a]
            else:
                rejected("del " + p, lambda: delattr(o, p), (KeyError, AttributeError))
        else:
            v = op[2]
            setattr(o, p, v)
            if kind == "str":
                st.attrs[a] = v
            elif kind in ("bool", "prot"):
                st.attrs[a] = "true" if v else "false"
                if kind == "prot" and v:
                    st.key = True
            elif kind in ("lim", "start"):
                st.attrs[a] = str(max(1, int(v)))
            elif kind == "num":
                st.num = str(v)
            elif kind == "frame":
                st.attrs[q("office:target-frame-name")] = v
                st.attrs[q("xlink:show")] = "new" if v == "_blank" else "replace"
            elif kind == "tname":
                st.attrs[a] = norm_name(v)
            elif kind in ("vis", "pname"):
                st.attrs[a] = v
            elif kind == "count":
                if int(v) > 1:
                    st.attrs[a] = str(v)
                else:
                    st.attrs.pop(a, None)

    def observe(self, st):
        o, x = st.o, st.o.xmlnode
        same("class", type(o).__name__, st.cls)
        for p, (kind, attr) in PROPS[st.cls].items():
            raw = st.attrs.get(q(attr)) if attr else None
            if kind in ("str", "tname", "pname"):
                want = raw
            elif kind in ("bool", "prot"):
                want = raw == "true"
            elif kind == "lim":
                want = max(1, int(raw)) if raw is not None else 1
            elif kind == "start":
                want = int(raw) if raw is not None else None
            elif kind == "num":
                want = st.num
            elif kind == "frame":
                want = st.attrs.get(q("office:target-frame-name"))
            elif kind == "vis":
                want = raw or "visible"
            else:
                want = int(raw) if raw is not None else 1
            same(p, getattr(o, p), want)
        if st.cls == "Spaces":
            same("textlen", o.textlen, o.count)
            same("plaintext", o.plaintext(), " " * o.count)
        got = dict(x.attrib)
        if st.cls in ("Section", "Table"):
            pre = "text" if st.cls == "Section" else "table"
            key = got.pop(q(pre + ":protection-key"), None)
            same("has a protection key", key is not None, st.key)
            need(key is None or re.match(r"^[A-Za-z0-9+/=]+$", key), "protection key is %r", key)
        if st.cls == "Spaces" and got.get(q("text:c")) == "1":
            del got[q("text:c")]
        same("attributes", got, st.attrs)
        same("content", self.body(st), st.body)
        nums = x.findall(q("text:number"))
        same("text:number elements", [n.text for n in nums], [] if st.num is None else [st.num])

    def canon(self, st):
        return (st.cls, tuple(sorted(st.attrs.items())), st.num, st.key)


def content_cases(tier):
    yield ("h",)
    yield ("p",)
    yield ("none",)


def content_run(case):
    """NumberedParagraph.content, constructor arguments and defaults."""
    k = case[0]
    if k == "h":
        for lvl in (-1, 0, 1, 2, 10):
            h = Heading("t", lvl, "S")
            same("level", h.outline_level, max(1, lvl))
            same("style", h.style_name, "S")
            n = NumberedParagraph(h)
            need(n.content.xmlnode is h.xmlnode, "content is another element")
            same("kind", n.content.kind, "Heading")
        same("default level", Heading("t").outline_level, 1)
        same("default style", Heading("t").style_name, None)
    elif k == "p":
        p = Paragraph("t", "S")
        n = NumberedParagraph(p)
        need(n.content.xmlnode is p.xmlnode, "content is another element")
        same("default level", n.level, 1)
        same("start_value", n.start_value, None)
        same("formatted_number", n.formatted_number, None)
        h = Hyperlink("http://x", "t")
        same("link", (h.href, h.plaintext(), h.target_frame, h.name, h.style_name),
             ("http://x", "t", "_blank", None, None))
        s = Section("n", "S")
        same("section", (s.name, s.style_name, s.protected), ("n", "S", False))
        l = List("S")
        same("list", (l.style_name, l.continue_numbering, l.header), ("S", False, None))
        for bad in ("text", 5):
            rejected("NumberedParagraph(%r)" % bad, lambda: NumberedParagraph(bad), TypeError)
    else:
        n = NumberedParagraph()
        c = n.content
        same("kind", c.kind, "Paragraph")
        need(n.content.xmlnode is c.xmlnode, "content is created twice")
        same("children", len(n), 1)
        for n_ in (0, 1, 2, 9):
            same("cells of a row", len(TableRow(n_)), n_)
        for n_ in (1, 2, 9):
            same("count", Spaces(n_).count, n_)
    return case


LEX_INT = ("3", "03", "+3", " 3 ", "\n3\t", "1", "01", "12", " 12", "0012")
LEX_BOOL = ("true", "false", "", "no", "0", " ")
LEX_STR = ("", " a  b ", "\u00e4<&>\"'", "x" * 300)


def lex_cases(tier):
    for cls in sorted(PROPS):
        for prop in sorted(PROPS[cls]):
            kind, attr = PROPS[cls][prop]
            if attr is None or kind in ("tname", "pname"):
                continue
            for text in LEX_INT if kind in ("lim", "start", "count") else \
                    LEX_BOOL if kind in ("bool", "prot") else LEX_STR:
                for src in ("xml", "new"):
                    yield (cls, prop, text, src)


def lex_run(case):
    """Values of attributes as other applications write them."""
    cls, prop, text, src = case
    kind, attr = PROPS[cls][prop]
    from ezodf.xmlns import wrap
    obj = wrap(xml(XML_SRC[cls])) if src == "xml" else NEW[cls]()
    obj.xmlnode.set(q(attr), text)
    before = tree(obj.xmlnode)
    want = int(text) if kind in ("lim", "start", "count") else text == "true" if kind in ("bool", "prot") else text
    if kind == "vis" and not text:
        return None      # not specified
    for _ in range(2):
        same(prop, getattr(obj, prop), want)
        need(type(getattr(obj, prop)) is type(want), "type of %s: %r", prop, getattr(obj, prop))
    if cls == "Spaces":
        same("text", obj.plaintext(), " " * want)
        same("length", obj.textlen, want)
    same("the element", tree(obj.xmlnode), before)
    again = wrap(etree.fromstring(etree.tostring(obj.xmlnode, encoding="UTF-8")))
    same(prop + " of a copy", getattr(again, prop), want)
    new = {"lim": 5, "start": 5, "count": 5, "bool": not want, "prot": not want, "vis": "filter"}.get(kind, "new")
    setattr(obj, prop, new)
    same(prop + " after an assignment", getattr(obj, prop), new)
    return case


# ---------------------------------------------------------------- P29 names and classes

SPEC_NS = {k: v for k, v in odf.NS.items() if k != "msoxl"}
SPEC_NS.update({
    "anim": "urn:oasis:names:tc:opendocument:xmlns:animation:1.0",
    "dr3d": "urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0",
    "form": "urn:oasis:names:tc:opendocument:xmlns:form:1.0",
    "script": "urn:oasis:names:tc:opendocument:xmlns:script:1.0",
    "smil": "urn:oasis:names:tc:opendocument:xmlns:smil-compatible:1.0",
    "math": "http://www.w3.org/1998/Math/MathML",
    "xforms": "http://www.w3.org/2002/xforms",
    "of": "urn:oasis:names:tc:opendocument:xmlns:of:1.2",
    "grddl": "http://www.w3.org/2003/g/data-view#",
    "xhtml": "http://www.w3.org/1999/xhtml",
    "dom": "http://www.w3.org/2001/xml-events",
    "xsd": "http://www.w3.org/2001/XMLSchema",
    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
    "ooo": "http://openoffice.org/2004/office",
    "ooow": "http://openoffice.org/2004/writer",
    "oooc": "http://openoffice.org/2004/calc",
    "rpt": "http://openoffice.org/2005/report",
    "css3t": "http://www.w3.org/TR/css3-text/",
    "tableooo": "http://openoffice.org/2009/table",
    "officeooo": "http://openoffice.org/2009/office",
    "drawooo": "http://openoffice.org/2010/draw",
})
LOCALS = ("p", "table-cell", "a.b", "x-y_z", "p1", "\u00e4")


def cn_cases(tier):
    for p in sorted(SPEC_NS):
        for l in LOCALS:
            yield ("ok", p, l)
    for b in ("p", "text", ":", "a:b:c", "text:p:q", "::", "nope:p", "Text:p", ":p", "TEXT:p"):
        yield ("bad", b)
    for t in ("{urn:x}p", "{urn:x}a:b", "{}p", "{http://a/b}c", "{" + odf.NS["text"] + "}p",
              "{text:p}", "{a:b:c}d:e"):
        yield ("clark", t)


def cn_run(case):
    from ezodf.xmlns import CN
    k = case[0]
    if k == "ok":
        _, p, l = case
        want = "{%s}%s" % (SPEC_NS[p], l)
        for _ in range(3):
            same("CN(%s:%s)" % (p, l), CN(p + ":" + l), want)
            same("CN(CN(%s:%s))" % (p, l), CN(want), want)
        return want
    if k == "bad":
        for _ in range(2):
            rejected("CN(%r)" % case[1], lambda: CN(case[1]), (ValueError, KeyError))
        return case
    for _ in range(2):
        same("CN(%r)" % case[1], CN(case[1]), case[1])
    return case


class Names(Machine):
    """Registrations and lookups, with prefixes used by this execution only."""
    name = "registrations"
    COUNT = itertools.count()

    def configs(self, tier):
        return [(0, 3 if tier == "quick" else 4, False), (0, 8, True)]

    PRE, URI = ("a", "b", "c"), ("u:1", "u:2", "u:3")

    def ops(self, cfg):
        o = [("reg", p, u) for p in self.PRE for u in self.URI]
        o += [("upd",)] + [("look", p + ":x") for p in self.PRE] + [("look", "{u:1}x")]
        return o

    def init(self, cfg):
        st = St()
        st.own = "z%d" % next(self.COUNT)
        st.d = {}
        self.update(st, {"a": "u:1", "b": "u:2"})
        return st

    def update(self, st, d):
        xmlns.XML.update({p + st.own: u for p, u in d.items()})
        st.d.update(d)

    def step(self, st, op):
        if op[0] == "reg":
            xmlns.XML.register_namespace(op[1] + st.own, op[2])
            st.d[op[1]] = op[2]
        elif op[0] == "upd":
            self.update(st, {"b": "u:9", "d": "u:4"})
        else:
            self.look(st, op[1])

    def look(self, st, tag):
        if tag[0] == "{":
            same("clark", xmlns.CN(tag), tag)
            return
        p, l = tag.split(":")
        name = p + st.own + ":" + l
        if p in st.d:
            same(tag, xmlns.CN(name), "{%s}%s" % (st.d[p], l))
        else:
            rejected(tag, lambda: xmlns.CN(name), KeyError)

    def observe(self, st):
        for _ in range(2):
            for p in self.PRE + ("d",):
                self.look(st, p + ":x")
                self.look(st, p + ":y")
            same("text:p", xmlns.CN("text:p"), q("text:p"))

    def canon(self, st):
        return tuple(sorted(st.d.items()))


CLASSES = {
    "office:text": "TextBody", "office:spreadsheet": "SpreadsheetBody",
    "office:drawing": "DrawingBody", "office:presentation": "PresentationBody",
    "office:chart": "ChartBody", "office:image": "ImageBody", "table:table-cell": "Cell",
    "table:covered-table-cell": "CoveredCell", "draw:page": "DrawingPage",
    "office:document-meta": "OfficeDocumentMeta", "office:document-styles": "OfficeDocumentStyles",
    "office:font-face-decls": "OfficeFontFaceDecls", "office:styles": "OfficeStyles",
    "office:automatic-styles": "OfficeAutomaticStyles", "office:master-styles": "OfficeMasterStyles",
    "style:style": "Style", "style:default-style": "DefaultStyle", "style:page-layout": "PageLayout",
    "style:font-face": "FontFace", "table:table": "Table", "table:table-column": "TableColumn",
    "table:table-row": "TableRow", "text:span": "Span", "text:p": "Paragraph",
    "text:numbered-paragraph": "NumberedParagraph", "text:h": "Heading", "text:a": "Hyperlink",
    "text:list-header": "ListHeader", "text:list-item": "ListItem", "text:list": "List",
    "text:section": "Section", "text:variable-decls": "SimpleVariables",
    "text:user-field-decls": "UserFields", "text:variable-decl": "SimpleVariable",
    "text:user-field-decl": "UserField", "text:variable-set": "SimpleVariableSet",
    "text:variable-get": "SimpleVariableGet", "text:variable-input": "SimpleVariableInput",
    "text:user-field-get": "UserFieldGet", "text:user-field-input": "UserFieldInput",
    "text:tab": "Tabulator", "text:line-break": "LineBreak", "text:s": "Spaces",
    "text:soft-page-break": "SoftPageBreak",
}
KINDLESS = {t for t, c in CLASSES.items() if c.startswith("Office") or
            c in ("Style", "DefaultStyle", "PageLayout", "FontFace")}


def class_cases(tier):
    for t in sorted(CLASSES):
        yield (t, "alone")
        yield (t, "child")
    for t in ("text:note", "draw:frame", "office:forms", "table:shapes", "style:master-page",
              "text:P", "text:unknown", "meta:keyword"):
        yield (t, "alone")
        yield (t, "child")
    # the name alone does not make the kind of an element
    for t in sorted(CLASSES):
        pre, l = t.split(":")
        for ns in ("", "{urn:x}", "{%s}" % odf.NS["office" if pre != "office" else "text"],
                   "{%s}" % odf.NS["draw" if pre != "draw" else "table"]):
            if ns + l not in {q(c) for c in CLASSES}:
                yield (ns + l, "alone")
                yield (ns + l, "child")
    yield ("", "register")


class Classes(Machine):
    """Histories of element classes being registered and elements being wrapped."""
    name = "element-classes"
    COUNT = itertools.count()

    def configs(self, tier):
        return [(0, 4 if tier == "quick" else 5, False)]

    def ops(self, cfg):
        o = [("reg", t, c) for t in (0, 1) for c in "AB"]
        return o + [("wrap", t) for t in (0, 1)] + [("reuse",), ("std",)]

    def init(self, cfg):
        st = St()
        n = next(self.COUNT)        # element names used by this execution only
        st.tags = ("{urn:extra}one%d" % n, "{urn:extra}two%d" % n)
        st.cls = {}
        st.root = etree.Element("{urn:extra}root")
        st.nodes = [etree.SubElement(st.root, t) for t in st.tags]
        return st

    def want(self, st, t):
        return st.cls.get(t, ezodf.base.GenericWrapper)

    def step(self, st, op):
        k = op[0]
        if k == "reg":
            cls = type("Extra" + op[2], (ezodf.base.GenericWrapper,), {"TAG": st.tags[op[1]]})
            xmlns.register_class(cls)
            st.cls[op[1]] = cls
        elif k == "wrap":
            same("class of a new element", type(xmlns.wrap(etree.Element(st.tags[op[1]]))),
                 self.want(st, op[1]))
        elif k == "reuse":      # the same elements again
            for t, n in enumerate(st.nodes):
                same("class of the same element", type(xmlns.wrap(n)), self.want(st, t))
        elif k == "std":
            for t, c in (("text:p", "Paragraph"), ("table:table", "Table"), ("text:span", "Span")):
                same("class of " + t, type(xmlns.wrap(etree.Element(q(t)))).__name__, c)

    def observe(self, st):
        parent = xmlns.wrap(st.root)
        for t in (0, 1):
            for obj in (parent[t], list(parent)[t], parent.find(st.tags[t]),
                        xmlns.wrap(etree.Element(st.tags[t]))):
                same("class of element %d" % t, type(obj), self.want(st, t))

    def canon(self, st):
        return tuple(sorted((t, c.__name__) for t, c in st.cls.items()))


def class_run(case):
    tag, how = case
    if how == "register":
        @xmlns.register_class
        class Extra(ezodf.base.GenericWrapper):
            TAG = "{urn:extra}thing"
        same("registered class", type(xmlns.wrap(etree.Element("{urn:extra}thing"))), Extra)
        e = Extra()
        same("tag", e.xmlnode.tag, "{urn:extra}thing")
        same("other class", type(xmlns.wrap(etree.Element("{urn:extra}thing2"))).__name__,
             "GenericWrapper")
        same("paragraph", type(xmlns.wrap(etree.Element(q("text:p")))).__name__, "Paragraph")
        return case
    want = CLASSES.get(tag, "GenericWrapper")
    name = q(tag) if ":" in tag and tag[0] != "{" else tag
    node = etree.Element(name)
    if how == "child":
        root = etree.Element("x")
        root.text = "t"
        root.append(node)
        parent = xmlns.wrap(root)
        same("class of the parent", type(parent).__name__, "GenericWrapper")
        for obj in (parent[0], parent.get_child(-1), list(parent)[0], parent.find(name),
                    list(parent.findall(name))[0]):
            same("class of %s" % tag, type(obj).__name__, want)
            need(obj.xmlnode is node, "another element was wrapped")
        same("index", parent.index(obj), 0)
    obj = xmlns.wrap(node)
    same("class of %s" % tag, type(obj).__name__, want)
    need(obj.xmlnode is node, "another element was wrapped")
    if tag not in KINDLESS and tag in CLASSES:
        same("kind", obj.kind, "Cell" if want == "CoveredCell" else want)
    return case


# ---------------------------------------------------------------- P30 manifest

class Mani(Machine):
    name = "manifest"

    SRC = {
        "given": [("/", "application/x", "1.2"), ("content.xml", "text/xml", None),
                  ("Pictures/a b&.png", "image/png", None)],
    }

    def configs(self, tier):
        return [("new", 3 if tier == "quick" else 4, False), ("given", 3, False),
                ("small", 7 if tier == "quick" else 12, True)]

    def ops(self, cfg):
        paths = ("/", "content.xml", "a b&.png", "META-INF/manifest.xml", "dir/", "",
                 "META-INF/documentsignatures.xml", "meta-inf/manifest.xml", "META-INF/")
        if cfg == "small":
            o = [("add", p, t, v) for p in ("/", "x.xml", "META-INF/manifest.xml")
                 for t in ("t/1", "") for v in (None, "1.2")]
            return o + [("del", p) for p in ("/", "x.xml", "META-INF/manifest.xml")] + [("read",)]
        o = [("add", p, "text/xml", None) for p in paths]
        o += [("add", "content.xml", "", None), ("add", "content.xml", "x/y", "1.1"),
              ("add", "/", "application/y", "1.2"), ("default", "dir/"), ("default", "content.xml")]
        o += [("del", p) for p in paths + ("nope", "Content.xml")] + [("read",)]
        return o

    def init(self, cfg):
        st = St()
        st.e = []
        if cfg == "given":
            ent = "".join('<manifest:file-entry manifest:full-path="%s" manifest:media-type="%s"%s/>'
                          % (p.replace("&", "&amp;"), t,
                             ' manifest:version="%s"' % v if v else "")
                          for p, t, v in self.SRC[cfg])
            st.m = Manifest(("<manifest:manifest %s>%s</manifest:manifest>"
                             % (odf.DECL, ent)).encode())
            st.e = [list(x) for x in self.SRC[cfg]]
        else:
            st.m = Manifest()
        return st

    def step(self, st, op):
        k = op[0]
        old = next((e for e in st.e if len(op) > 1 and e[0] == op[1]), None)
        if k in ("add", "default"):
            p = op[1]
            if k == "default":
                st.m.add(p)
                t, v = "", None
            else:
                t, v = op[2], op[3]
                if v is None:
                    st.m.add(p, t)
                else:
                    st.m.add(p, t, v)
            if p == "META-INF/manifest.xml":
                return
            if old is None:
                st.e.append([p, t, v])
            else:
                old[1] = t
                if v is not None:
                    old[2] = v
        elif k == "del":
            st.m.remove(op[1])
            if old is not None:
                st.e.remove(old)
        elif k == "read":
            st.m = Manifest(st.m.tobytes())

    def observe(self, st):
        for p in ("/", "content.xml", "a b&.png", "META-INF/manifest.xml", "dir/", "x.xml", "nope",
                  "Pictures/a b&.png", "", "content", "META-INF/documentsignatures.xml",
                  "meta-inf/manifest.xml", "META-INF/", "META-INF", "manifest.xml"):
            e = next((e for e in st.e if e[0] == p), None)
            f = st.m.find(p)
            if e is None:
                need(f is None, "found %r", p)
            else:
                need(f is not None, "%r is missing", p)
                same("entry " + p, [f.get(q("manifest:full-path")), f.get(q("manifest:media-type")),
                                    f.get(q("manifest:version"))], e)
        root = etree.fromstring(st.m.tobytes())
        same("root", root.tag, q("manifest:manifest"))
        same("entries", [[f.get(q("manifest:full-path")), f.get(q("manifest:media-type")),
                          f.get(q("manifest:version"))] for f in root], st.e)
        same("elements", {f.tag for f in root} | {q("manifest:file-entry")},
             {q("manifest:file-entry")})

    def canon(self, st):
        return repr(st.e)


CHECKS = [
    Check("P24", "model_checking", [Observers(), Cases("answers", result_cases, result_run),
                                     Cases("saving", save_cases, save_run),
                                     domain.EVENTS, sizes.EVENTS],
          "every sequence of subscribe/unsubscribe/drop/create/broadcast operations (all sequences "
          "and breadth-first to the fixpoint), and all save histories with listeners; states are "
          "sets of subscriptions"),
    Check("P26", "exploration", [Cases("time", dur_cases, dur_run)],
          "cross product of boundary values of all components; distinct texts/values"),
    Check("P28", "exploration", [Props(), Cases("defaults", content_cases, content_run),
                                 Cases("forms of values", lex_cases, lex_run),
                                    domain.PROPERTIES, alias.Alias(Props(), "o")],
          "all ordered pairs (thorough: triples) of assignments to all properties of all element "
          "kinds; distinct attribute sets"),
    Check("P29", "model_checking", [Cases("prefixes", cn_cases, cn_run), Names(), Classes(),
                                    Cases("classes", class_cases, class_run)],
          "all prefixes x names, all registration histories, all element kinds"),
    Check("P30", "model_checking", [Mani(), domain.MANIFEST, sizes.MANIFEST],
          "every sequence of add/remove/read operations; states are ordered dictionaries"),
]
