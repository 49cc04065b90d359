"""Numbers: how many things there are, how long and how deep they are.  Every
operation at every interesting position of a collection of every size."""
import hashlib
import io
import os

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, ListItem, Paragraph, Section, Span, Table, ezlist)
from ezodf.base import GenericWrapper
from ezodf.drawingpage import DrawingPage
from ezodf.xmlns import wrap

from checks import domain
from lib import odf
from lib.mc import Cases, Mismatch, need, rejected, same, scratch
from lib.odf import q

FEW = (1, 2, 3, 9, 10, 11, 12, 26, 27)
MANY = FEW + (50, 99, 100, 101, 255, 256, 257)


def sizes(tier):
    return FEW + (101,) if tier == "quick" else MANY


def positions(n):
    """Interesting indices of a list of `n` items, also negative ones."""
    pos = {0, 1, 2, 8, 9, 10, n // 2, n - 2, n - 1}
    pos = sorted(p for p in pos if 0 <= p < n)
    return pos + [p - n for p in pos]


# ---------------------------------------------------------------- lists

class Box(object):
    """A collection which behaves like a list: how to make and read it."""
    bad = (IndexError,)

    def get(self, i):
        return self.c[i]

    def set(self, i, x):
        self.c[i] = x

    def drop(self, i):
        del self.c[i]

    def insert(self, i, x):
        self.c.insert(i, x)

    def append(self, x):
        self.c.append(x)

    def find(self, x):
        return self.c.index(x)

    def saved(self):
        return None


class Pages(Box):
    def __init__(self, ext):
        self.doc = ezodf.newdoc(ext)
        self.c = self.doc.sheets if ext == "ods" else self.doc.pages
        self.ext = ext

    def new(self, name):
        return Table(name, size=(1, 1)) if self.ext == "ods" else DrawingPage(name)

    def label(self, x):
        return x.name

    def labels(self, c):
        return list(c.names())

    def saved(self):
        d = ezodf.opendoc(self.doc.tobytes())
        return list((d.sheets if self.ext == "ods" else d.pages).names())


class Children(Box):
    def __init__(self, kind):
        self.kind, self.offset = kind, 0
        if kind == "generic":
            self.c = GenericWrapper(etree.Element("root"))
        elif kind == "section":
            self.c = Section("s")
        elif kind == "list":
            self.c = ezlist([])
        else:
            self.doc = ezodf.newdoc("odt")
            self.c = self.doc.body
            for _ in range(len(self.c)):
                del self.c[0]

    def new(self, name):
        return ListItem(name) if self.kind == "list" else Paragraph(name)

    def label(self, x):
        return x.plaintext()

    def labels(self, c):
        return [x.plaintext() for x in c]

    def saved(self):
        return [x.plaintext() for x in
                wrap(etree.fromstring(etree.tostring(self.c.xmlnode)))] \
            if self.kind != "body" else None


def list_cases(kinds):
    def cases(tier):
        for kind in kinds:
            for n in sizes(tier):
                for how in ("build", "reverse"):
                    yield (kind, n, how, None, 0)
                for op in ("get", "set", "drop", "insert", "move"):
                    for i in positions(n):
                        yield (kind, n, "build", op, i)
    return cases


def list_run(make):
    def run(case):
        kind, n, how, op, i = case
        b = make(kind)
        want = ["n%d" % k for k in range(n)]
        if how == "build":
            for w in want:
                b.append(b.new(w))
        else:
            for w in reversed(want):
                b.insert(0, b.new(w))
        same("names", b.labels(b.c), want)
        if op == "get":
            same("item", b.label(b.get(i)), want[i])
            same("index", b.find(b.get(i)), i % n)
        elif op == "set":
            b.set(i, b.new("new"))
            want[i] = "new"
        elif op == "drop":
            b.drop(i)
            del want[i]
        elif op == "insert":
            b.insert(i, b.new("new"))
            want.insert(i, "new")
        elif op == "move":
            x = b.get(i)
            b.append(x)
            want.append(want.pop(i))
            same("index after moving", b.find(x), n - 1)
        same("length", len(b.c), len(want))
        same("items", [b.label(x) for x in b.c], want)
        same("items by index", [b.label(b.get(k)) for k in range(len(want))], want)
        same("items from the end", [b.label(b.get(-k - 1)) for k in range(len(want))], want[::-1])
        rejected("index %d" % len(want), lambda: b.get(len(want)))
        rejected("index %d" % (-len(want) - 1), lambda: b.get(-len(want) - 1))
        saved = b.saved()
        if saved is not None:
            same("saved items", saved, want)
        return case
    return run


PAGES = Cases("many items", list_cases(("ods", "odp", "odg")), list_run(Pages))
CHILDREN = Cases("many children", list_cases(("generic", "section", "list", "body")),
                 list_run(Children))


# ---------------------------------------------------------------- tables

SHAPES = ((1, 1), (1, 2), (2, 1), (10, 10), (1, 30), (30, 1), (11, 27), (27, 11), (3, 100), (100, 3))
LONG = ((2, 300), (300, 2), (2, 1100), (1100, 2))
BIG = ((1, 300), (300, 1), (30, 60), (12, 703))
TOPS = ("append_rows", "append_columns", "insert_rows", "insert_columns", "delete_rows",
        "delete_columns", "reset", "clear", "info")


def grid_cases(tier):
    for shape in SHAPES + LONG + (BIG if tier != "quick" else BIG[2:3]):
        for op in TOPS:
            n = shape[0] if "row" in op else shape[1]
            if shape in LONG and tier == "quick":
                yield (shape, op, n - 3 if op[:3] in ("ins", "del") else 0, 1)
                continue
            for i in positions(n) if op not in ("reset", "clear") and not op.startswith("app") else [0]:
                for count in (1, 2, 9, 10, 26) if op != "info" else (1,):
                    if op.startswith("delete") and (count >= n or i % n + count > n):
                        continue
                    if op.startswith("insert") and count == 10:
                        continue
                    yield (shape, op, i, count)


def grid_run(case):
    (nr, nc), op, i, count = case
    t = Table("T", size=(nr, nc))
    want = [["%d/%d" % (r, c) for c in range(nc)] for r in range(nr)]
    for r in range(nr):
        for c in range(nc):
            t[r, c].set_value(want[r][c])
    rows, cols = ["r%d" % k for k in range(nr)], ["c%d" % k for k in range(nc)]
    for k, v in enumerate(rows):
        t.row_info(k).style_name = v
    for k, v in enumerate(cols):
        t.column_info(k).style_name = v
    if op == "append_rows":
        t.append_rows(count)
        want += [[None] * nc for _ in range(count)]
        rows += [None] * count
    elif op == "append_columns":
        t.append_columns(count)
        want = [r + [None] * count for r in want]
        cols += [None] * count
    elif op == "insert_rows":
        t.insert_rows(i, count)
        i %= nr
        want[i:i] = [[None] * nc for _ in range(count)]
        rows[i:i] = [None] * count
    elif op == "insert_columns":
        t.insert_columns(i, count)
        i %= nc
        for r in want:
            r[i:i] = [None] * count
        cols[i:i] = [None] * count
    elif op == "delete_rows":
        t.delete_rows(i, count)
        i %= nr
        del want[i:i + count], rows[i:i + count]
    elif op == "delete_columns":
        t.delete_columns(i, count)
        i %= nc
        for r in want:
            del r[i:i + count]
        del cols[i:i + count]
    elif op in ("reset", "clear"):
        size = (nr, nc) if op == "clear" else (count, 27 - count)
        t.clear() if op == "clear" else t.reset(size)
        want = [[None] * size[1] for _ in range(size[0])]
        rows, cols = [None] * size[0], [None] * size[1]
    nr, nc = len(want), len(want[0])
    for x in (t, Table(xmlnode=etree.fromstring(etree.tostring(t.xmlnode)))):
        same("size", (x.nrows(), x.ncols()), (nr, nc))
        same("cells", [[c.value for c in r] for r in x.rows()], want)
        same("columns", [[c.value for c in col] for col in x.columns()], [list(z) for z in zip(*want)])
        same("row infos", [x.row_info(k).style_name for k in range(nr)], rows)
        same("column infos", [x.column_info(k).style_name for k in range(nc)], cols)
        same("row infos from the end", [x.row_info(-k - 1).style_name for k in range(nr)], rows[::-1])
        same("column infos from the end", [x.column_info(-k - 1).style_name for k in range(nc)],
             cols[::-1])
        same("cells from the end", [[x[-r - 1, -c - 1].value for c in range(nc)]
                                    for r in range(nr)], [r[::-1] for r in want[::-1]])
        same("columns from the end", [[c.value for c in x.column(-k - 1)] for k in range(nc)],
             [list(z) for z in zip(*want)][::-1])
        same("rows from the end", [[c.value for c in x.row(-k - 1)] for k in range(nr)], want[::-1])
        for what, access in (("cell", lambda r, c: x[r, c]), ("get_cell", lambda r, c: x.get_cell((r, c)))):
            for r in (nr, -nr - 1, -2 * nr - 1):
                for c in (0, nc - 1, -1, -nc):
                    rejected("%s of row %d, column %d" % (what, r, c), lambda: access(r, c))
            for c in (nc, -nc - 1, -2 * nc - 1):
                for r in (0, nr - 1, -1, -nr):
                    rejected("%s of row %d, column %d" % (what, r, c), lambda: access(r, c))
        for k in (nr, -nr - 1):
            rejected("row %d" % k, lambda: list(x.row(k)))
            rejected("row info %d" % k, lambda: x.row_info(k))
        for k in (nc, -nc - 1):
            rejected("column %d" % k, lambda: list(x.column(k)))
            rejected("column info %d" % k, lambda: x.column_info(k))
    return case


GRID = Cases("large tables", grid_cases, grid_run)


# ---------------------------------------------------------------- spans

def span_cases(tier):
    big = (12, 30)
    for size in ((1, 2), (2, 1), (1, 10), (1, 11), (10, 1), (11, 1), (1, 29), (12, 1), (10, 10), (12, 29),
                 (11, 26), (3, 27)):
        for pos in ((0, 0), (0, 1), (1, 0), (1, 3), (0, 28), (10, 9), (9, 10)):
            if pos[0] + size[0] <= big[0] and pos[1] + size[1] <= big[1]:
                for op in ("set", "remove", "overlap"):
                    yield (big, pos, size, op)
    for big in ((30, 12), (101, 3), (3, 101)) + (((70, 33), (300, 2), (2, 300)) if tier != "quick" else ()):
        for h in sorted({1, 2, 9, 20, 27, big[0] - 1, big[0]}):
            for w in sorted({1, 2, 9, 20, 27, big[1] - 1, big[1]}):
                for pos in {(0, 0), (1, 1), (big[0] - h, big[1] - w)}:
                    if h * w > 1 and min(pos) >= 0 and pos[0] + h <= big[0] and pos[1] + w <= big[1]:
                        for op in ("set", "remove", "overlap"):
                            yield (big, pos, (h, w), op)


def span_run(case):
    (nr, nc), (r0, c0), (h, w), op = case
    t = Table("T", size=(nr, nc))
    for r in range(nr):
        for c in range(nc):
            t[r, c].set_value("%d/%d" % (r, c))
    t.set_cell_span((r0, c0), (h, w))
    area = {(r, c) for r in range(r0, r0 + h) for c in range(c0, c0 + w)}
    spans = {(r0, c0): (h, w)}
    if op == "overlap":
        for p in sorted(area):
            if p[0] + 2 <= nr:
                rejected("overlapping span at %r" % (p,), lambda: t.set_cell_span(p, (2, 1)))
            if p[1] + 2 <= nc:
                rejected("overlapping span at %r" % (p,), lambda: t.set_cell_span(p, (1, 2)))
        rejected("all cells", lambda: t.set_cell_span((0, 0), (nr, nc)))
    elif op == "remove":
        t.remove_cell_span((r0, c0))
        area, spans = set(), {}
    for x in (t, Table(xmlnode=etree.fromstring(etree.tostring(t.xmlnode)))):
        for (r, c), cell in x.itercells():
            same("span at %d/%d" % (r, c), cell.span, spans.get((r, c), (1, 1)))
            same("covered at %d/%d" % (r, c), cell.covered, (r, c) in area and (r, c) not in spans)
            same("value", cell.value, "%d/%d" % (r, c))
    return case


SPANS = Cases("large spans", span_cases, span_run)


# ---------------------------------------------------------------- repetitions

def rep_cases(tier):
    counts = (9, 10, 11, 26, 27, 100, 255, 256, 257, 1000) if tier == "quick" else \
        (9, 10, 11, 12, 26, 27, 99, 100, 101, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4000)
    for n in counts:
        for where in ("cell", "row", "column", "first"):
            for strategy in ("all", "all_but_last", "all_less_maxcount"):
                yield (n, where, strategy)


def rep_run(case):
    n, where, strategy = case
    row = '<table:table-row%s><table:table-cell office:value-type="string"%s><text:p>a</text:p>' \
          '</table:table-cell><table:table-cell office:value-type="string"><text:p>z</text:p>' \
          '</table:table-cell></table:table-row>'
    reps = ' table:number-%s-repeated="%d"'
    c = reps % ("columns", n) if where in ("cell", "column") else ""
    r = reps % ("rows", n) if where == "row" else ""
    if where == "first":
        c, r = reps % ("columns", 3), reps % ("rows", 3)
    src = ('<table:table table:name="T"><table:table-column table:style-name="x"%s/>'
           '<table:table-column table:style-name="y"/>%s%s</table:table>'
           % (c, row % (r, c), row % ("", c)))
    old = ezodf.config.table_expand_strategy
    strat = (old.get_strategy(), old.get_maxcount())
    try:
        ezodf.config.set_table_expand_strategy(strategy, (n, n)) if where != "first" else \
            ezodf.config.set_table_expand_strategy(strategy, (max(n, 4), max(n, 4)))
        t = Table(xmlnode=odf.xml(src))
    finally:
        ezodf.config.set_table_expand_strategy(*strat)
    k = 3 if where == "first" else n
    if strategy == "all_less_maxcount" and where != "first":
        k = 1
    kr = k if where in ("row", "first") else 1
    kc = k if where in ("cell", "column", "first") else 1
    want = [["a"] * kc + ["z"]] * (kr + 1)
    same("size", (t.nrows(), t.ncols()), (len(want), len(want[0])))
    same("cells", [[c.value for c in r] for r in t.rows()], want)
    same("columns", [t.column_info(i).style_name for i in range(t.ncols())], ["x"] * kc + ["y"])
    t[0, 0].set_value("new")
    same("other cells", [c.value for _, c in t.itercells()][1:],
         [c for r in want for c in r][1:])
    return case


REPEATS = Cases("large counts", rep_cases, rep_run)


# ---------------------------------------------------------------- texts

def text_cases(tier):
    lengths = (63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537) + \
        (() if tier == "quick" else (10 ** 6, 10 ** 7 + 1))
    for what in ("letters", "words", "lines", "tabs", "umlauts"):
        for n in lengths:
            if n > 5000 and what in ("lines", "tabs") and (tier == "quick" or n > 10 ** 5):
                continue
            for kind in sorted(TEXT):
                yield (what, n, kind)
    for n in list(range(1, 40)) + [63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 32767, 65536]:
        for kind in sorted(TEXT):
            yield ("spaces", n, kind)
            yield ("between", n, kind)


TEXT = {
    "paragraph": lambda t: Paragraph(t), "heading": lambda t: Heading(t),
    "span": lambda t: Span(t), "link": lambda t: Hyperlink("h", t),
    "item": lambda t: ListItem(t), "cell": lambda t: Cell(t),
    "appended": lambda t: _appended(t),
}


def _appended(t):
    p = Paragraph("x")
    p.append_text(t)
    return p


def text_run(case):
    what, n, kind = case
    text = {"letters": "a" * n, "words": ("word " * n)[:n - 1] + ".", "lines": ("a\n" * n)[:n],
            "tabs": ("\t" * n), "umlauts": ("\xe4\u20ac\U0001F600" * n)[:n], "spaces": " " * n,
            "between": "a" + " " * n + "b"}[what]
    x = TEXT[kind](text)
    want = "x" + text if kind == "appended" else text
    for y in (x, wrap(etree.fromstring(etree.tostring(x.xmlnode), etree.XMLParser(huge_tree=True)))):
        got = y.plaintext()
        need(got == want, "text of %d characters differs at %s (length %d)", len(want),
             next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), "the end"), len(got))
        same("textlen", y.textlen, len(want))
    return case


TEXTS = Cases("long texts", text_cases, text_run)


def deep_cases(tier):
    for depth in (1, 2, 3, 5, 9, 10, 11, 20, 50, 100, 150):
        for kind in ("span", "link", "mixed"):
            yield ("deep", depth, kind)
    for n in sizes(tier):
        for kind in ("span", "link", "mixed"):
            yield ("wide", n, kind)
    for n in sizes(tier):
        for kind in ("items", "header"):
            yield ("list", n, kind)


def deep_run(case):
    what, n, kind = case
    if what == "list":
        l = ezlist(["i%d" % k for k in range(n)])
        want = ["i%d" % k for k in range(n)]
        same("items", [i.plaintext() for i in l.iteritems()], want)
        if kind == "header":
            for k in range(3):
                l.header = ezodf.ListHeader("h%d" % k)
            same("header", l.header.plaintext(), "h2")
            same("children", [c.plaintext() for c in l], ["h2"] + want)
        same("items", [i.plaintext() for i in l.iteritems()], want)
        return case
    new = lambda k, t: Span(t) if kind == "span" or kind == "mixed" and k % 2 else Hyperlink("h", t)  # noqa
    p = Paragraph("<")
    at, want, tail = p, "<", ""
    for k in range(n):
        s = new(k, "%d(" % k)
        at.append(s)
        if what == "deep":
            want += "%d(" % k
            s.tail = ")%d" % k
            tail = ")%d" % k + tail
            at = s
        else:
            s.tail = ")%d" % k
            want += "%d()%d" % (k, k)
    want += tail
    for y in (p, wrap(etree.fromstring(etree.tostring(p.xmlnode)))):
        same("text", y.plaintext(), want)
        same("length", y.textlen, len(want))
    return case


DEEP = Cases("many parts", deep_cases, deep_run)


# ---------------------------------------------------------------- documents

WELL_KNOWN = [
    "Thumbnails/thumbnail.png", "META-INF/documentsignatures.xml", "META-INF/macrosignatures.xml",
    "layout-cache", "Configurations2/accelerator/current.xml", "Configurations2/images/Bitmaps/",
    "Configurations2/", "settings.xml", "manifest.rdf", "Basic/script-lc.xml", "Basic/Standard/m.xml",
    "Object 1/content.xml", "Object 1/meta.xml", "Object 1/styles.xml", "Object 1/mimetype",
    "Object 1/META-INF/manifest.xml", "Object 1/", "ObjectReplacements/Object 1", "Pictures/x.png",
    "Pictures/", "Versions/Version1", "VersionList.xml", "Dialogs/a.xdl", "rdf/meta.rdf", "current.xml",
    ".DS_Store", "__MACOSX/x", "a.bak", "a.tmp", "~lock.odt#", "content.xml.bak", "meta.xml~",
    "Content.xml", "content.XML", "xcontent.xml", "content.xmlx", "styles", "meta", "mimetype2",
    "META-INF/manifest", "META-INF/manifest.xml.bak", "META-INF/", "META-INF/container.xml",
    "meta-inf/manifest.xml", "manifest.xml", "Scripts/python/x.py", "Fonts/a.ttf", "database/x",
    "embedded.odt", "a/b/c/d/e.xml", "_rels/.rels", "[Content_Types].xml", "0", "-", "a" * 200,
]


def known_cases(tier):
    for i in range(len(WELL_KNOWN)):
        for how in ("path", "bytes", "stream"):
            for target in ("other", "bytes", "same", "template"):
                for content in ("data", "empty", "xml") if tier != "quick" else ("data", "empty"):
                    if not (target == "same" and how == "bytes"):
                        yield (i, how, target, content)


def known_run(case):
    from checks.c_docs import run_save
    i, how, target, content = case
    name = WELL_KNOWN[i]
    d = b"" if name.endswith("/") else {"data": b"\x00\xff data", "empty": b"", "xml": b"<?xml version='1.0'?>\n<a  b='1'/>\n"}[content]
    data = odf.package("ott" if target == "template" else "odt", "<text:p>x</text:p>",
                       [(name, d, True), ("zz", b"zz", False)])
    got = run_save(data, how, target, 2)
    mem = {n: c for n, _, c in odf.members(got)}
    need(name in mem, "member %s is missing", name)
    same("content of " + name, mem[name], d)
    same("the other member", mem.get("zz"), b"zz")
    bad = odf.check_package(got, odf.MIME["odt"])
    need(not bad, "%s", "; ".join(bad))
    man = lambda b: [(e.get(q("manifest:full-path")), e.get(q("manifest:media-type")))  # noqa
                     for e in etree.fromstring(odf.part(b, "META-INF/manifest.xml"))]
    same("manifest entry", [e for e in man(got) if e[0] == name], [e for e in man(data) if e[0] == name])
    return case


KNOWN = Cases("well-known members", known_cases, known_run)


def volume_cases(tier):
    for n in (1, 2, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 1 << 20,
              (1 << 20) + 1, 3 << 20):
        for kind in ("zeros", "noise"):
            for how in ("path", "bytes"):
                for target in ("other", "same", "bytes"):
                    if target == "same" and how == "bytes":
                        continue
                    yield ("size", n, kind, how, target)
    for n in sizes(tier) + ((1000,) if tier != "quick" else (300,)):
        for how in ("path", "bytes"):
            for target in ("other", "bytes"):
                yield ("number", n, "", how, target)


def noise(n):
    out = []
    k = 0
    while k * 32 < n:
        out.append(hashlib.sha256(b"%d" % k).digest())
        k += 1
    return b"".join(out)[:n]


def volume_run(case):
    from checks.c_docs import run_save
    what, n, kind, how, target = case
    if what == "size":
        extra = [("a.bin", noise(n) if kind == "noise" else b"\0" * n, True), ("b.bin", b"b", False)]
    else:
        extra = [("Pictures/%d.png" % k, b"%d" % k, bool(k % 2)) for k in range(n)]
    got = run_save(odf.package("odt", "<text:p>x</text:p>", extra), how, target, 2)
    mem = {name: c for name, _, c in odf.members(got)}
    for name, d, _ in extra:
        need(mem.get(name) == d, "member %s was changed", name)
    same("number of members", len(mem), 5 + len(extra))
    bad = odf.check_package(got, odf.MIME["odt"])
    need(not bad, "%s", "; ".join(bad))
    return case


VOLUME = Cases("large packages", volume_cases, volume_run)


ZIPS = ("extra", "comment", "archive comment", "descriptor", "bzip2", "lzma", "stored", "1980", "2107",
        "unix", "dos", "prefix", "zip64", "unicode", "latin", "time extra")
WHICH = ("mimetype", "content.xml", "META-INF/manifest.xml", "Pictures/x.png", "all")


def other_zip(data, form, which):
    """The same package as another program could write it."""
    import struct
    import zipfile
    buf = io.BytesIO()
    if form == "prefix":
        buf.write(b"#!/bin/sh\nexit\n" * 3)

    class Pipe(object):
        """A stream which can not be rewound: sizes follow behind the data."""
        def write(self, b):
            return buf.write(b)

        def flush(self):
            pass
    with zipfile.ZipFile(Pipe() if form == "descriptor" else buf, "w") as z:
        if form == "archive comment":
            z.comment = b"a comment of the archive"
        for name, kind, d in odf.members(data):
            hit = which in (name, "all")
            i = zipfile.ZipInfo(name, (2011, 2, 3, 4, 5, 6))
            i.compress_type = kind
            if hit and form == "extra":
                i.extra = struct.pack("<HH4s", 0xcafe, 4, b"abcd")
            elif hit and form == "time extra":
                i.extra = struct.pack("<HHBI", 0x5455, 5, 1, 1300000000)
            elif hit and form == "comment":
                i.comment = b"about this member"
            elif hit and form in ("bzip2", "lzma", "stored"):
                i.compress_type = {"bzip2": zipfile.ZIP_BZIP2, "lzma": zipfile.ZIP_LZMA,
                                   "stored": zipfile.ZIP_STORED}[form]
            elif hit and form in ("1980", "2107"):
                i.date_time = (int(form), 1, 1, 0, 0, 0)
            elif hit and form == "unix":
                i.create_system, i.external_attr = 3, 0o100755 << 16
            elif hit and form == "dos":
                i.create_system, i.external_attr = 0, 0x21
            if hit and form == "zip64":
                with z.open(i, "w", force_zip64=True) as f:
                    f.write(d)
            else:
                z.writestr(i, d)
    return buf.getvalue()


def zip_cases(tier):
    for form in ZIPS:
        for which in WHICH if form not in ("archive comment", "descriptor", "prefix") else ("all",):
            for how in ("path", "bytes", "stream"):
                for target in ("other", "bytes", "same", "template", "stream"):
                    for times in (1, 2) if tier == "quick" else (1, 2, 3):
                        for ext in ("odt",) if tier == "quick" else ("odt", "ods", "odp"):
                            if not (target == "same" and how == "bytes"):
                                yield (form, which, how, target, times, ext)


def zip_run(case):
    import zipfile
    from checks.c_docs import run_save
    form, which, how, target, times, ext = case
    inner = {"odt": "<text:p>x</text:p>", "ods": '<table:table table:name="x"/>',
             "odp": '<draw:page draw:name="x"/>'}[ext]
    name = {"unicode": "Pictures/\u4e2d.png", "latin": "Pictures/\xfc.png"}.get(form, "Pictures/x.png")
    extra = [(name, noise(3000), True), ("Configurations2/", b"", False), ("settings.xml", b"<a/>", True)]
    data = other_zip(odf.package((ext[:-1] + "t" if ext != "odt" else "ott") if target == "template" else ext,
                                 inner, extra), form, which)
    got = run_save(data, how, target, times, ext)
    bad = odf.check_package(got, odf.MIME[ext])
    need(not bad, "%s", "; ".join(bad))
    mem = {n: c for n, _, c in odf.members(got)}
    for n, d, _ in extra:
        need(mem.get(n) == d, "member %s was changed", n)
    same("number of members", len(mem), 5 + len(extra))
    same("content", len(odf.app_body(got).findall("*")) >= 1, True)
    # read from the front, without the directory at the end
    with zipfile.ZipFile(io.BytesIO(got)) as z:
        for i in z.infolist():
            need(got[i.header_offset:i.header_offset + 4] == b"PK\3\4", "no member at its place")
            need(not i.flag_bits & 1, "encrypted member %s", i.filename)
            same("CRC", i.CRC, __import__("zlib").crc32(mem[i.filename]))
    again = ezodf.opendoc(got)
    same("type", again.doctype, ext)
    return case


ZIPFORMS = Cases("forms of zip files", zip_cases, zip_run)


GROWN = ("registered", "loaded", "both", "content", "styles", "meta")


def growth_cases(tier):
    for what in GROWN:
        for n in sizes(tier) + (1000,) + ((5000,) if tier != "quick" else ()):
            for long in (False, True):
                for target in ("bytes", "other", "same"):
                    for saves in (1, 2) if n < 50 else (1,):
                        yield (what, n, long, target, saves)


def growth_run(case):
    what, n, long, target, saves = case
    pad = "x" * 150 if long else ""
    loaded = n if what in ("loaded", "both") else 1
    more = n if what in ("registered", "both") else 0
    extra = [("Pictures/%s%d.png" % (pad, k), b"%d" % k, True) for k in range(loaded)]
    with scratch() as d:
        src = os.path.join(d, "a.odt")
        with open(src, "wb") as f:
            f.write(odf.package("odt", "<text:p>x</text:p>", extra))
        doc = ezodf.opendoc(src)
        want = [name for name, _, _ in extra]
        for k in range(more):
            name = "Pictures/r%s%d.gif" % (pad, k)
            doc.filemanager.register(name, b"r%d" % k, "image/gif")
            want.append(name)
        for k in range(n):
            if what == "content":
                doc.body.append(Paragraph("p%d%s" % (k, pad)))
            elif what == "styles":
                doc.inject_style('<style:style xmlns:style="%s" style:name="s%d%s" '
                                 'style:family="paragraph"/>' % (q("style:x")[1:-2], k, pad))
            elif what == "meta":
                doc.meta.usertags["u%d" % k] = "v%d%s" % (k, pad)
        for _ in range(saves):
            if target == "bytes":
                got = doc.tobytes()
                continue
            dst = src if target == "same" else os.path.join(d, "b.odt")
            doc.saveas(dst) if target == "other" else doc.save()
            with open(dst, "rb") as f:
                got = f.read()
    bad = odf.check_package(got, odf.MIME["odt"])
    need(not bad, "%s", "; ".join(bad))
    names = [name for name, _, _ in odf.members(got)]
    same("members", sorted(x for x in names if x.startswith("Pictures/")), sorted(want))
    man = etree.fromstring(odf.part(got, "META-INF/manifest.xml"))
    paths = [e.get(q("manifest:full-path")) for e in man]
    same("pictures in the manifest", sorted(x for x in paths if x.startswith("Pictures/")), sorted(want))
    return case


GROWTH = Cases("growing packages", growth_cases, growth_run)


def content_cases(tier):
    for ext in ("odt", "ods", "odp", "flat"):
        for n in sizes(tier) + ((300, 1000) if tier == "quick" else (300, 1000, 5000, 20000)):
            if ext in ("ods", "odp") and n > 300:
                continue
            for saves in (1, 2, 12) if n < 20 else (1,):
                yield (ext, n, saves)


def content_run(case):
    """A document grows: everything has to be there after saving it."""
    ext, n, saves = case
    with scratch() as folder:
        path = os.path.join(folder, "x.odt")
        if ext == "flat":
            with open(path, "wb") as f:
                f.write(odf.flat("", "odt"))
            doc = ezodf.opendoc(path)
        else:
            doc = ezodf.newdoc(ext, path)
        names = []

        def items(d):
            if ext == "ods":
                return [(s.name, s[-1, -1].value) for s in d.sheets]
            if ext == "odp":
                return [(p.name, p.name) for p in d.pages]
            return [(p.plaintext(), p.plaintext()) for p in d.body if p.kind == "Paragraph"]
        for s in range(saves):
            for k in range(n):
                name = "%d.%d" % (s, k)
                names.append((name, name))
                if ext == "ods":
                    t = doc.sheets.append(Table(name, size=(2, 2)))
                    t[1, 1].set_value(name)
                elif ext == "odp":
                    doc.pages.append(DrawingPage(name))
                else:
                    doc.body.append(Paragraph(name))
            doc.save()
            need(items(doc) == names, "content of the open document")
            again = ezodf.opendoc(path)
            need(items(again) == names, "%d items saved, %d read", len(names), len(items(again)))
            same("editing cycles", again.meta["editing-cycles"], str(s + 1))
        same("files", sorted(os.listdir(folder)),
             ["x.odt"] + (["x.odt.bak"] if saves > 1 or ext == "flat" else []))
    return case


CONTENT = Cases("growing documents", content_cases, content_run)


# ---------------------------------------------------------------- meta data

def meta_cases(tier):
    for n in sizes(tier):
        for op in ("drop", "set", "add", "clear"):
            for i in positions(n) if op in ("drop", "set") else [0]:
                for what in ("keywords", "usertags"):
                    yield (what, n, op, i)


def meta_run(case):
    what, n, op, i = case
    doc = ezodf.newdoc("odt")
    want = {"k%d" % k: "v%d" % k for k in range(n)}
    other = {"x%d" % k: "y" for k in range(12)}
    m = doc.meta

    def put(m, w, k, v):
        if w == "keywords":
            m.keywords.add(k)
        else:
            m.usertags[k] = v
    away = "usertags" if what == "keywords" else "keywords"
    for k in other:
        put(m, away, k, "y")
    for k, v in want.items():
        put(m, what, k, v)
        put(m, what, k, v)
    name = "k%d" % (i % n)
    if op == "drop":
        m.keywords.remove(name) if what == "keywords" else m.usertags.__delitem__(name)
        del want[name]
    elif op == "set":
        put(m, what, name, "new")
        want[name] = "new"
    elif op == "add":
        put(m, what, "k", "v")
        want["k"] = "v"
    else:
        (m.keywords if what == "keywords" else m.usertags).clear()
        want = {}
    for d in (doc, ezodf.opendoc(doc.tobytes())):
        for w, x in ((what, want), (away, other)):
            c = getattr(d.meta, w)
            same(w, list(c), list(x) if w == "keywords" else list(x.items()))
            for k in list(x) + ["nope", "k", "k999", "K1"]:
                same("%s: %s" % (w, k), k in c, k in x)
    return case


META = Cases("many entries", meta_cases, meta_run)


def cycle_cases(tier):
    for start in (0, 1, 8, 9, 10, 98, 99, 100, 254, 255, 256, 998, 999, 1000, 9999, 32767, 65535, 99999,
                  2 ** 31 - 1, 2 ** 32 - 1, 10 ** 12):
        for saves in (1, 2, 12):
            yield (start, saves)


def cycle_run(case):
    start, saves = case
    doc = ezodf.newdoc("odt")
    doc.meta["editing-cycles"] = str(start)
    for k in range(saves):
        s = io.BytesIO()
        doc.saveas(s)
        same("cycles", doc.meta["editing-cycles"], str(start + k + 1))
        same("saved cycles", ezodf.opendoc(s).meta["editing-cycles"], str(start + k + 1))
    return case


CYCLES = Cases("many saves", cycle_cases, cycle_run)


# ---------------------------------------------------------------- variables

def var_cases(kind):
    def cases(tier):
        for n in sizes(tier):
            for i in positions(n)[:len(positions(n)) // 2]:
                for value in ("new", 5, 2.5, True):
                    yield ("variables", n, i, value)
            for value in ("new", 5, 2.5, True):
                yield ("fields", n, 0, value)
    return cases


def var_run(kind):
    def run(case):
        what, n, i, value = case
        names = ["v%d" % k for k in range(n)] if what == "variables" else ["v0", "v1"]
        doc = domain.var_doc(kind, names)
        coll = doc.body.variables if kind == "sv" else doc.body.userfields
        field = q(domain.PRE[kind] + "get")
        if what == "fields":
            for k in range(n):
                doc.body.append(Paragraph("t%d" % k)).append(wrap(etree.Element(
                    field, {q("text:name"): "v%d" % (k % 2), q("office:value-type"): "string"})))
        coll["v%d" % i].value = value
        typ = {str: "string", bool: "boolean"}.get(type(value), "float")
        for d in (doc, ezodf.opendoc(doc.tobytes())):
            coll = d.body.variables if kind == "sv" else d.body.userfields
            same("value", coll["v%d" % i].value, float(value) if typ == "float" else value)
            same("type", coll["v%d" % i].type, typ)
            for k, name in enumerate(names):
                if k != i:
                    same("another variable", (coll[name].value, coll[name].type), ("old", "string"))
            mine = [x.get(q("office:value-type")) for x in d.body.xmlnode.iter(field)
                    if x.get(q("text:name")) == "v%d" % i]
            same("types of the fields", mine, [typ] * len(mine))
            got = [x.text for x in d.body.xmlnode.iter(field) if x.get(q("text:name")) == "v%d" % i]
            want = {True: "true"}.get(value, str(value)) if value is True else str(value)
            same("texts of the fields", got, [want] * len(got))
            same("number of fields", len(got), 1 + ((n + 1) // 2 if what == "fields" else 0))
        return case
    return run


VARS = {k: Cases("many variables", var_cases(k), var_run(k)) for k in ("sv", "uf")}


# ---------------------------------------------------------------- styles, manifest, listeners

def style_cases(tier):
    for n in sizes(tier):
        for i in positions(n)[:len(positions(n)) // 2]:
            yield (n, i)


def style_run(case):
    n, i = case
    doc = ezodf.newdoc("odt")
    names = ["s%d" % k for k in range(n)]
    for c in (doc.styles.styles, doc.styles.automatic_styles, doc.content.automatic_styles):
        base = len(c.xmlnode)
        for s in names:
            c[s] = domain.new_style(s, "m" + s)
        name = "s%d" % i
        same("style", c[name]["class"], "m" + name)
        c[name] = domain.new_style(name, "new")
        same("the new style", c[name]["class"], "new")
        same("order", [e.get(q("style:name")) for e in c.xmlnode][base:], names)
        same("all styles", [c[s]["class"] for s in names],
             ["new" if s == name else "m" + s for s in names])
        for s in ("s", "s%d" % n, "S0", "s00"):
            rejected(s, lambda: c[s], KeyError)
    d = ezodf.opendoc(doc.tobytes())
    same("saved styles", [d.styles.styles[s]["class"] for s in names],
         ["new" if s == name else "m" + s for s in names])
    return case


STYLES = Cases("many styles", style_cases, style_run)


def mani_cases(tier):
    for n in sizes(tier):
        for op in ("add", "again", "remove"):
            for i in positions(n)[:len(positions(n)) // 2]:
                yield (n, op, i)


def mani_run(case):
    from ezodf.manifest import Manifest
    n, op, i = case
    m = Manifest()
    want = [("p%d" % k, "t%d" % k) for k in range(n)]
    for p, t in want:
        m.add(p, t)
    if op == "add":
        m.add("p%dx" % i, "new")
        want.append(("p%dx" % i, "new"))
    elif op == "again":
        m.add("p%d" % i, "new")
        want[i] = ("p%d" % i, "new")
    else:
        m.remove("p%d" % i)
        del want[i]
    for x in (m, Manifest(m.tobytes())):
        for p, t in want:
            same("entry " + p, x.find(p).get(q("manifest:media-type")), t)
        same("entries", [(e.get(q("manifest:full-path")), e.get(q("manifest:media-type")))
                         for e in x.xmlnode.findall(q("manifest:file-entry"))], want)
        same("unknown entry", x.find("p"), None)
        same("unknown entry", x.find("p%d" % n), None)
    return case


MANIFEST = Cases("many entries", mani_cases, mani_run)


def event_cases(tier):
    for n in sizes(tier):
        for what in ("listeners", "events", "roots"):
            for i in positions(n)[:len(positions(n)) // 2]:
                yield (what, n, i)


def event_run(case):
    from ezodf.observer import Observer
    what, n, i = case

    class Root(object):
        pass

    class Listener(object):
        def __init__(self, k):
            self.k, self.root = k, Root()

        def get_xmlroot(self):
            return self.root
    log, obs = [], Observer()
    lis = [Listener(k) for k in range(n)]
    for l in lis:
        for e in range(n) if what == "events" else [0]:
            setattr(l, "on_e%d_handler" % e, lambda msg, l=l, e=e: log.append((l.k, e, msg)))
    for l in lis:
        obs.subscribe("e%d" % (l.k if what == "events" else 0), l)
    if what == "events":
        obs.broadcast("e%d" % i, "m")
        same("delivered", log, [(i, i, "m")])
    elif what == "roots":
        obs.broadcast("e0", "m", root=lis[i].root)
        same("delivered", log, [(i, 0, "m")])
    else:
        obs.unsubscribe("e0", lis[i])
        obs.broadcast("e0", "m")
        same("delivered", sorted(log), [(k, 0, "m") for k in range(n) if k != i])
    return case


EVENTS = Cases("many listeners", event_cases, event_run)


# ---------------------------------------------------------------- text bodies

def body_cases(tier):
    for n in sizes(tier):
        for decl in (0, 1, 4):
            for trail in (0, 1, 3):
                for add in (1, 2, 12):
                    yield (n, decl, trail, add)




def body_run(case):
    n, decl, trail, add = case
    pro = {0: "", 1: "<text:variable-decls/>", 4: "<text:tracked-changes/><text:variable-decls/><text:sequence-decls/>"
           "<text:user-field-decls/>"}[decl]
    epi = {0: "", 1: "<table:named-expressions/>",
           3: "<table:named-expressions/><table:database-ranges/><table:dde-links/>"}[trail]
    doc = ezodf.opendoc(odf.package("odt", pro + "".join("<text:p>%d</text:p>" % k for k in range(n)) + epi))
    for k in range(add):
        doc.body.append(Paragraph("new%d" % k))
    for x in (odf.app_body(doc.tobytes()), doc.body.xmlnode):
        tags = [odf.local(e) for e in x]
        ps = [k for k, t in enumerate(tags) if t == "text:p"]
        same("the texts", [x[k].text for k in ps], [str(k) for k in range(n)] + ["new%d" % k for k in range(add)])
        same("texts are together", ps, list(range(ps[0], ps[0] + len(ps))))
        same("behind the texts", tags[ps[-1] + 1:], [t.strip("<>/") for t in epi.split("><") if t])
    return case


BODY = Cases("many paragraphs", body_cases, body_run)


# ---------------------------------------------------------------- documents

def many_cases(tier):
    for n in (3, 5, 10, 12) + (() if tier == "quick" else (30, 100)):
        for src in ("new", "bytes", "stream", "template", "file"):
            for ext in ("odt", "ods", "odp"):
                for i in (0, n // 2, n - 1):
                    for drop in (0, 1):
                        yield (n, src, ext, i, drop)


def many_run(case):
    """Many documents at a time: only the edited one changes."""
    import gc
    from checks.c_docs import inner, items, family
    n, src, ext, i, drop = case
    data = odf.package("ott" if src == "template" and ext == "odt" else ext, inner(family(ext), "x"))
    with scratch() as folder:
        path = os.path.join(folder, "src." + ext)
        with open(path, "wb") as f:
            f.write(data)
        stream = io.BytesIO(data)
        make = {"new": lambda: ezodf.newdoc(ext), "bytes": lambda: ezodf.opendoc(data),
                "stream": lambda: ezodf.opendoc(stream), "file": lambda: ezodf.opendoc(path),
                "template": lambda: ezodf.newdoc(template=data)}[src]
        docs = [make() for _ in range(n)]
        base = [] if src == "new" else [("x", "x")]
        for k, d in enumerate(docs):
            d.meta["title"] = "t%d" % k
            d.meta.keywords.add("k%d" % k)
        if drop:
            docs[(i + 1) % n] = None
            gc.collect()
            docs[(i + 1) % n] = d = make()
            d.meta["title"] = "t%d" % ((i + 1) % n)
            d.meta.keywords.add("k%d" % ((i + 1) % n))
        d = docs[i]
        if ext == "ods":
            d.sheets.append(Table("new", size=(1, 1)))[0, 0].set_value("new")
        elif ext == "odp":
            d.pages.append(DrawingPage("new"))
        else:
            d.body.append(Paragraph("new"))
        for k, d in enumerate(docs):
            for e in (d, ezodf.opendoc(d.tobytes())):
                got = [a for a, _ in items(e, family(ext))]
                same("content of document %d" % k, got,
                     [a for a, _ in base] + (["new"] if k == i else []))
                same("title", e.meta["title"], "t%d" % k)
                same("keywords", list(e.meta.keywords), ["k%d" % k])
    return case


DOCS = Cases("many documents", many_cases, many_run)


# ---------------------------------------------------------------- limits of the XML parser

def limit_cases(tier):
    for flat in (False, True):
        for where in ("text", "cell", "title") if not flat else ("text", "title"):
            for n in (1000000, 9900000, 10100000) if tier == "quick" else \
                    (1000000, 9000000, 9900000, 10100000, 20000000):
                yield (flat, where, n)
        for n in (50, 200, 240, 300) if tier == "quick" else tuple(range(10, 250, 10)) + (300, 1000):
            yield (flat, "depth", n)


def limit_run(case):
    """What a document holds can be read again, however long or deep it is."""
    flat, where, n = case
    ext = "ods" if where == "cell" else "odt"
    doc = odf.open_any(odf.flat("")) if flat else ezodf.newdoc(ext)
    text = "ab cd" * (n // 5)
    if where == "depth":
        text = ""
        p = Paragraph("x")
        doc.body.append(p)
        for i in range(n):
            s = Span("%d" % (i % 10))
            p.append(s)
            p, text = s, text + "%d" % (i % 10)
        text = "x" + text
    elif where == "text":
        doc.body.append(Paragraph(text))
    elif where == "cell":
        doc.sheets.append(Table("t", size=(1, 1)))
        doc.sheets[0]["A1"].set_value(text)
    else:
        doc.meta["title"] = text
    data = doc.tobytes()
    try:
        doc = odf.open_any(data)
    except Exception as e:
        # libxml2 without XML_PARSE_HUGE
        beyond = n > 250 if where == "depth" else n > 10000000
        raise Mismatch("a document with %s %d can not be opened again: %s" % (where, n, str(e)[:80]),
                       ("too-deep" if where == "depth" else "too-long") if beyond else None)
    got = doc.meta["title"] if where == "title" else doc.sheets[0]["A1"].value if where == "cell" else \
        [c for c in doc.body if c.kind == "Paragraph"][-1].plaintext()
    need(got == text, "the text of %d characters: got %d", len(text), len(got))
    return case


LIMITS = Cases("limits of the parser", limit_cases, limit_run, serial=True)
