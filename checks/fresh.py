"""Nothing an operation does is seen in objects and documents which are made afterwards."""
import itertools

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, LineBreak, List, ListHeader, ListItem, NumberedParagraph, Paragraph,
                   Section, Sheet, SoftPageBreak, Spaces, Span, Tabulator)
from ezodf.drawingpage import DrawingPage
from ezodf.manifest import Manifest
from ezodf.table import TableColumn, TableRow
from ezodf.xmlns import CN, wrap

from checks.c_refused import (BAD, GOOD, GROUPS, GRID, INNER, CELLS, ITEMS, LISTS, METAS, MANIFESTS, STYLES, TABLE,
                              NUMBERS, ODD, WHERE, value)
from lib import odf
from lib.mc import Cases, same
from lib.odf import xml

CLASSES = [(c, a) for c in (Span, Paragraph, Heading, Hyperlink, ListHeader, ListItem, Section, List)
           for a in ((), ("t  t",))]
CLASSES += [(c, ()) for c in (LineBreak, Tabulator, SoftPageBreak, Spaces, Cell, NumberedParagraph, TableColumn, TableRow,
                              Manifest)]
CLASSES += [(Spaces, (3,)), (Cell, ("a",)), (Cell, (2.5,)), (Cell, (1, "currency", "EUR")), (Sheet, ("S", (2, 2))),
            (DrawingPage, ("P",)), (Heading, ("h", 3, "st"))]
PARSED = "".join(INNER + CELLS + ITEMS + LISTS + STYLES + ("<text:p>a<text:s text:c='3'/></text:p>", GRID[0],
                 "<text:user-field-decl text:name='a' office:value-type='float' office:value='3'/>"))
TAGS = ("text:p", "table:table", "table:covered-table-cell", "style:style", "x")


def snapshot(deep):
    out = []
    for cls, args in CLASSES:
        o = cls(*args)
        out.append((cls.__name__, args, o.TAG if cls is not Manifest else "", etree.tostring(o.xmlnode)))
        if cls is Cell:
            out.append((o.value, o.value_type, o.currency, o.covered, o.span))
    root = xml("<office:text>%s</office:text>" % PARSED)
    out.append([(type(w).__name__, getattr(w, "textlen", None)) for w in map(wrap, root)])
    for t in TAGS:
        try:
            out.append(CN(t))
        except ValueError:
            out.append("refused")
    if deep:
        for ext in ("odt", "ods"):
            doc = ezodf.newdoc(ext)
            out.append([etree.tostring(p.xmlnode) for p in (doc.content, doc.styles, doc.filemanager.manifest)])
            out.append((list(doc.meta.keywords), list(doc.meta.usertags), list(doc.meta.count), doc.backup,
                        doc.docname, list(doc.body.variables), list(doc.body.userfields)))
            doc = ezodf.opendoc(odf.package(ext, PARSED.replace("<text:user", "<!-- --><text:user") if ext == "odt"
                                            else TABLE[0], meta=METAS[1]))
            out.append([etree.tostring(p.xmlnode) for p in (doc.content, doc.styles, doc.meta, doc.filemanager.manifest)])
    return out


BASE = {}


def cases(tier):
    for g, (make, states, ops, _) in GROUPS.items():
        kinds = ([("number", i) for i in range(len(NUMBERS))] + [("int", 0), ("int", 1)] if g == "grid" else
                 [("where", i) for i in range(len(WHERE))] + [("place", 0), ("place", 1)]
                 if g in ("sheets", "places", "fields") else
                 [("good", i) for i in range(len(GOOD))] + [("bad", 0)] + [("odd", i) for i in range(len(ODD))])
        for s in range(len(states)):
            for o in ops:
                for v in kinds:
                    yield (g, s, ((o, v),))
            if tier != "quick":
                few = [v for v in kinds if v[0] in ("good", "int", "place")]
                for o, p in itertools.product(ops, repeat=2):
                    yield (g, s, ((o, few[0]), (p, few[-1])))


def run(case):
    g, s, ops = case
    if not BASE:
        BASE[True], BASE[False] = snapshot(True), snapshot(False)
    make, states, table, _ = GROUPS[g]
    st = make(states[s])
    for name, v in ops:
        try:
            table[name](st, value(v))
        except Exception:
            pass            # P34
    deep = ops[0][1][0] in ("good", "int", "place") and len(ops) == 1
    for got, want in zip(snapshot(deep), BASE[deep]):
        same("object made afterwards", got, want)
    return case


FRESH = Cases("new objects", cases, run)
