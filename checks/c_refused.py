"""Refused values: what can't be stored is refused, and what is refused changes nothing."""
import itertools

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, List, ListHeader, ListItem, NumberedParagraph, Paragraph,
                   Section, Sheet, Span)
from ezodf.drawingpage import DrawingPage
from ezodf.manifest import Manifest
from ezodf.xmlns import wrap

from lib import odf
from lib.mc import Cases, Check, need, same
from lib.odf import MIME, q, xml

# texts which no XML document can hold
BAD = ["a\x0bb", "\x00", "good \t  \n\x1fz", "\ud83d", "x\ufffe"]
# values of other types: they are stored or refused
ODD = [None, b"\xff", 5, (), "", object]
GOOD = ["new", "x  y\tz"]
# numbers: a computed number is often a float
NUMBERS = [2.0, 1.5, "1", (1, 1), -9]


# places which do not exist
WHERE = [99, -99, "missing", "ZZ99", (9, 9), (0, -9), None, 1.5]


class St(object):
    pass


def values(tier):
    return [("bad", i) for i in range(len(BAD))] + [("odd", i) for i in range(len(ODD))]


def value(v):
    return {"bad": BAD, "odd": ODD, "good": GOOD, "number": NUMBERS, "int": [1, 2], "where": WHERE,
            "place": [0, -1]}[v[0]][v[1]]


def setter(name):
    def op(st, v):
        setattr(st.o, name, v)
    return op


# ---------------------------------------------------------------- text elements

INNER = ("", "old", "old<text:s/> tail", "<text:span>in</text:span>", "old<text:line-break/>")


def text_make(cls, tag, attrs=""):
    def make(inner):
        root = xml("<text:section><text:p>before</text:p>head<%s%s>%s</%s>behind<text:p/></text:section>" % (
            tag, attrs, inner, tag))
        st = St()
        st.roots = [root]
        st.o = wrap(root[1])
        need(type(st.o) is cls, "class %r", type(st.o))
        return st
    return make


TEXT_OPS = {"append_text": lambda st, v: st.o.append_text(v), "text": setter("text"), "tail": setter("tail"),
            "style_name": setter("style_name"),
            "attribute": lambda st, v: st.o.set_attr(q("text:x"), v),
            "child": lambda st, v: st.o.append(Span(v)),
            "styled child": lambda st, v: st.o.append(Span("x", style_name=v)),
            "insert": lambda st, v: st.o.insert(0, Span(v)),
            "foreign": lambda st, v: st.o.append(v),
            "foreign 0": lambda st, v: st.o.insert(0, v),
            "replaced by": lambda st, v: st.o.set_child(0, v)}
NOT_TEXT = ("foreign", "foreign 0", "replaced by")


# ---------------------------------------------------------------- cells and tables

CELLS = ("<table:table-cell/>",
         "<table:table-cell office:value-type='float' office:value='3'><text:p>3,00</text:p></table:table-cell>",
         "<table:table-cell office:value-type='currency' office:value='3' office:currency='EUR'/>",
         "<table:table-cell office:value-type='string'><text:p>old</text:p></table:table-cell>",
         "<table:table-cell office:value-type='string' office:string-value='old'/>",
         "<table:table-cell office:value-type='date' office:date-value='2011-01-01'><text:p>1.1.</text:p>"
         "<text:p>2</text:p></table:table-cell>",
         "<table:table-cell office:value-type='boolean' office:boolean-value='true' table:formula='f'/>")


def cell_make(inner):
    root = xml("<table:table table:name='T'><table:table-column/><table:table-row>%s</table:table-row>"
               "</table:table>" % inner)
    st = St()
    st.roots = [root]
    st.o = wrap(root[1][0])
    return st


CELL_OPS = {"value": lambda st, v: st.o.set_value(v), "display": setter("display_form"),
            "currency": lambda st, v: st.o.set_value(7, currency=v),
            "currency type": lambda st, v: st.o.set_value(7, "currency", v),
            "type": lambda st, v: st.o.set_value(7, v),
            "append": lambda st, v: st.o.append_text(v),
            "append styled": lambda st, v: st.o.append_text("x", style_name=v),
            "paragraph": lambda st, v: st.o.set_value(Paragraph(v)),
            "formula": setter("formula"), "style_name": setter("style_name"),
            "validation": setter("content_validation_name")}
for _t in ("string", "float", "percentage", "currency", "date", "time", "boolean"):
    CELL_OPS["as " + _t] = lambda st, v, t=_t: st.o.set_value(v, t)


def table_make(inner):
    st = St()
    st.doc = ezodf.opendoc(odf.package("ods", inner))
    st.o = st.doc.sheets[0]
    st.roots = [st.doc.content.xmlnode]
    return st


TABLE = ("<table:table table:name='T' table:style-name='old'><table:table-column/><table:table-column/>"
         "<table:table-row><table:table-cell/><table:table-cell office:value-type='string'><text:p>x</text:p>"
         "</table:table-cell></table:table-row></table:table><table:table table:name='U'/>",)
TABLE_OPS = {"name": setter("name"), "style_name": setter("style_name"),
             "copy": lambda st, v: st.doc.sheets.append(st.o.copy(v)),
             "sheet": lambda st, v: st.doc.sheets.append(Sheet(v, (1, 1))),
             "first sheet": lambda st, v: st.doc.sheets.insert(0, Sheet(v, (1, 1))),
             "replaced": lambda st, v: st.doc.sheets.__setitem__(1, Sheet(v, (1, 1))),
             "foreign": lambda st, v: st.doc.sheets.append(v),
             "foreign 0": lambda st, v: st.doc.sheets.insert(0, v),
             "foreign at": lambda st, v: st.doc.sheets.__setitem__(0, v),
             "named": lambda st, v: st.doc.sheets.__setitem__(v, Sheet("N", (1, 1))),
             "removed": lambda st, v: st.doc.sheets.__delitem__(v),
             "cell": lambda st, v: st.o.set_cell("A1", v),
             "cell item": lambda st, v: st.o.__setitem__("B1", v),
             "cell value": lambda st, v: st.o["B1"].set_value(v),
             "new cell": lambda st, v: st.o.__setitem__((0, 0), Cell(v)),
             "row style": lambda st, v: setattr(st.o.row_info(0), "style_name", v),
             "row visibility": lambda st, v: setattr(st.o.row_info(0), "visibility", v),
             "column style": lambda st, v: setattr(st.o.column_info(1), "default_cell_style_name", v)}
GRID = ("<table:table table:name='T'>" + "<table:table-column/>" * 3 + 3 * (
        "<table:table-row><table:table-cell><text:p>x</text:p></table:table-cell><table:table-cell table:style-name='s'/>"
        "<table:table-cell/></table:table-row>") + "</table:table>",)
GRID_OPS = {"reset rows": lambda st, v: st.o.reset((v, 2)), "reset columns": lambda st, v: st.o.reset((2, v)),
            "append rows": lambda st, v: st.o.append_rows(v), "append columns": lambda st, v: st.o.append_columns(v),
            "insert row": lambda st, v: st.o.insert_rows(v), "insert rows": lambda st, v: st.o.insert_rows(1, v),
            "insert column": lambda st, v: st.o.insert_columns(v),
            "insert columns": lambda st, v: st.o.insert_columns(1, v),
            "delete row": lambda st, v: st.o.delete_rows(v), "delete rows": lambda st, v: st.o.delete_rows(0, v),
            "delete column": lambda st, v: st.o.delete_columns(v),
            "delete columns": lambda st, v: st.o.delete_columns(0, v),
            "span row": lambda st, v: st.o.set_cell_span((v, 0), (1, 2)),
            "span column": lambda st, v: st.o.set_cell_span((0, v), (2, 1)),
            "span height": lambda st, v: st.o.set_cell_span((1, 1), (v, 2)),
            "span width": lambda st, v: st.o.set_cell_span((1, 1), (2, v)),
            "span size": lambda st, v: st.o.set_cell_span((1, 1), v),
            "no span": lambda st, v: st.o.remove_cell_span((v, 1)),
            "cell": lambda st, v: st.o.__setitem__((v, 0), Cell("new")),
            "cell column": lambda st, v: st.o.__setitem__((0, v), Cell("new")),
            "child": lambda st, v: st.o.__getitem__(v),
            "sheet": lambda st, v: st.doc.sheets.insert(v, Sheet("N", (1, 1))),
            "no sheet": lambda st, v: st.doc.sheets.__delitem__(v),
            "move": lambda st, v: st.doc.sheets.insert(v, st.o)}
TABLE_NOT = ("foreign", "foreign 0", "foreign at", "cell", "cell item")


# ---------------------------------------------------------------- meta data

METAS = ("", "<dc:title>old</dc:title><meta:keyword>old</meta:keyword><meta:user-defined meta:name='new' "
         "meta:value-type='float'>1</meta:user-defined><meta:document-statistic meta:page-count='3'/>")
FIELDS = ("generator", "title", "description", "subject", "initial-creator", "creator", "creation-date", "date",
          "editing-cycles", "language")


def meta_make(inner):
    st = St()
    st.doc = ezodf.opendoc(odf.package("odt", "", meta=inner))
    st.o = st.doc.meta
    st.roots = [st.o.xmlnode]
    return st


META_OPS = {"keyword": lambda st, v: st.o.keywords.add(v),
            "no keyword": lambda st, v: st.o.keywords.remove(v),
            "tag": lambda st, v: st.o.usertags.set(v, "x"),
            "tag value": lambda st, v: st.o.usertags.set("new", v, "string"),
            "tag item": lambda st, v: st.o.usertags.__setitem__("other", v),
            "tag type": lambda st, v: st.o.usertags.set("new", "changed", v),
            "other tag type": lambda st, v: st.o.usertags.set("other", "x", v),
            "no tag": lambda st, v: st.o.usertags.__delitem__(v),
            "update": lambda st, v: st.o.usertags.update({"new": v}),
            "update name": lambda st, v: st.o.usertags.update({v: "x"}),
            "count": lambda st, v: st.o.count.__setitem__(v, 5),
            "count value": lambda st, v: st.o.count.__setitem__("page", v),
            "count update": lambda st, v: st.o.count.update({"page": v})}
for _f in FIELDS:
    META_OPS[_f] = lambda st, v, f=_f: st.o.__setitem__(f, v)


# ---------------------------------------------------------------- variables

def vars_make(inner):
    kind, typ, n = inner
    d = "user-field" if kind == "uf" else "variable"
    own = {"float": "office:value='3'", "string": "office:string-value='old'",
           "boolean": "office:boolean-value='true'"}[typ]
    text = {"float": "3", "string": "old", "boolean": "true"}[typ]
    body = "<text:%s-decls><text:%s-decl text:name='a' office:value-type='%s' %s/></text:%s-decls><text:p>" % (
        d, d, typ, own if kind == "uf" else "", d)
    for what in ("set", "get", "input")[:n]:
        body += "<text:%s-%s text:name='a' office:value-type='%s' %s>%s</text:%s-%s> tail" % (
            d, what, typ, own if what == "set" else "", text, d, what)
    st = St()
    st.doc = ezodf.opendoc(odf.package("odt", body + "</text:p>"))
    st.c = st.doc.body.userfields if kind == "uf" else st.doc.body.variables
    st.o = st.c["a"]
    st.roots = [st.doc.content.xmlnode]
    return st


VARS = [(k, t, n) for k in ("uf", "sv") for t in ("float", "string", "boolean") for n in (1, 2, 3)]


def first(st):
    return list(st.o.instances)[0]


VAR_OPS = {"item": lambda st, v: st.c.__setitem__("a", v), "value": setter("value"),
           "field": lambda st, v: setattr(first(st), "value", v)}


# ---------------------------------------------------------------- others

MANIFESTS = ("", "<manifest:file-entry manifest:full-path='new' manifest:media-type='old'/>",
             "<manifest:file-entry manifest:full-path='/' manifest:media-type='old' manifest:version='1.1'/>")


def manifest_make(inner):
    st = St()
    st.o = Manifest(etree.tostring(xml("<manifest:manifest>%s</manifest:manifest>" % inner)))
    st.roots = [st.o.xmlnode]
    return st


MANIFEST_OPS = {"path": lambda st, v: st.o.add(v, "text/xml"), "type": lambda st, v: st.o.add("new", v),
                "root type": lambda st, v: st.o.add("/", v),
                "version": lambda st, v: st.o.add("new", "changed", v),
                "root version": lambda st, v: st.o.add("/", "changed", v),
                "remove": lambda st, v: st.o.remove(v)}

STYLES = ("<style:style style:name='new' style:family='text'/>",)


def styles_make(inner):
    st = St()
    st.doc = ezodf.opendoc(odf.package("odt", "", styles="<office:styles>%s</office:styles>" % inner))
    st.o = st.doc.styles.styles
    st.roots = [st.doc.styles.xmlnode]
    return st


def new_style(name):
    root = xml("<office:styles><style:style style:family='text'/></office:styles>")
    s = wrap(root[0])
    s["name"] = name
    return s


STYLE_OPS = {"name": lambda st, v: st.o["new"].__setitem__("name", v),
             "parent": lambda st, v: st.o["new"].__setitem__("parent-style-name", v),
             "unknown": lambda st, v: st.o["new"].__setitem__(v, "x"),
             "replace": lambda st, v: st.o.__setitem__("new", new_style(v)),
             "append": lambda st, v: st.o.__setitem__(v, new_style(v)),
             "foreign": lambda st, v: st.o.__setitem__("new", v),
             "inject": lambda st, v: st.doc.inject_style("<style:style style:name='%s'/>" % v)}


def list_make(inner):
    root = xml("<text:section>%s<text:p/></text:section>" % inner)
    st = St()
    st.roots = [root]
    st.o = wrap(root[0])
    return st


LISTS = ("<text:list><text:list-header><text:p>h</text:p></text:list-header><text:list-item><text:p>i</text:p>"
         "</text:list-item></text:list>", "<text:list/>")
LIST_OPS = {"style_name": setter("style_name"), "header": setter("header"),
            "new header": lambda st, v: setattr(st.o, "header", ListHeader(v)),
            "item": lambda st, v: st.o.append(ListItem(v)),
            "first item": lambda st, v: st.o.insert(0, ListItem(v)),
            "paragraph": lambda st, v: st.o.append(NumberedParagraph(v)),
            "foreign": lambda st, v: st.o.append(v)}
ITEMS = ("<text:list-item><text:p>i</text:p></text:list-item>", "<text:list-item/>",
         "<text:list-item><text:number>1</text:number><text:p>i</text:p></text:list-item>")
ITEM_OPS = {"number": setter("formatted_number"), "start": setter("start_value"),
            "paragraph": lambda st, v: st.o.append(Paragraph(v)),
            "styled": lambda st, v: st.o.append(Paragraph("x", style_name=v))}
SECTIONS = ("<text:section text:name='old'><text:p>i</text:p></text:section>", "<text:section/>")
SECTION_OPS = {"name": setter("name"), "style_name": setter("style_name"),
               "section": lambda st, v: st.o.append(Section(v)),
               "styled": lambda st, v: st.o.append(Section("x", v))}
LIST_NOT = ("header", "foreign", "paragraph", "start")


# ---------------------------------------------------------------- places

def sheets_make(inner):
    kind, body = inner
    st = St()
    st.doc = ezodf.opendoc(odf.package(kind, body))
    st.o = st.doc.sheets if kind == "ods" else st.doc.pages
    st.new = (lambda: Sheet("N", (2, 1))) if kind == "ods" else (lambda: DrawingPage(name="N"))
    if len(st.o) == 0:
        st.o.append(st.new())
    other = ezodf.opendoc(odf.package(kind, body))
    st.other = other.sheets if kind == "ods" else other.pages
    if len(st.other) == 0:
        st.other.append(st.new())
    st.roots = [st.doc.content.xmlnode, other.content.xmlnode]
    return st


SHEETS = (("ods", TABLE[0]), ("ods", "<table:content-validations/>" + TABLE[0] + "<table:named-expressions/>"),
          ("ods", "<table:table table:name='missing'/>"),
          ("odg", "<draw:page draw:name='P'/><draw:page draw:name='Q'/>"), ("odg", ""))
SHEETS_OPS = {"new": lambda st, v: st.o.__setitem__(v, st.new()), "own": lambda st, v: st.o.__setitem__(v, st.o[0]),
              "last": lambda st, v: st.o.__setitem__(v, st.o[-1]), "insert": lambda st, v: st.o.insert(v, st.new()),
              "move": lambda st, v: st.o.insert(v, st.o[0]), "move last": lambda st, v: st.o.insert(v, st.o[-1]),
              "delete": lambda st, v: st.o.__delitem__(v), "get": lambda st, v: st.o[v],
              "index": lambda st, v: st.o.index(st.new()),
              "other": lambda st, v: st.o.__setitem__(v, st.other[0]),
              "insert other": lambda st, v: st.o.insert(v, st.other[0]),
              "append other": lambda st, v: st.o.append(v if v == 0 else st.other[0]),
              "paragraph": lambda st, v: st.o.insert(v, Paragraph("x")),
              "set paragraph": lambda st, v: st.o.__setitem__(v, Paragraph("x"))}


def place_make(inner):
    root = xml("<text:section><text:section>%s</text:section> tail<text:p>other</text:p><text:list><text:list-header>"
               "<text:p>h</text:p></text:list-header></text:list></text:section>" % inner)
    st = St()
    st.o, st.other, st.list = wrap(root[0]), wrap(root[1]), wrap(root[2])
    st.roots = [root]
    return st


PLACES = ("<text:p>1</text:p>a<text:h>2</text:h>b", "t<text:p><text:span>1</text:span>x</text:p>", "t")
PLACE_OPS = {"new": lambda st, v: st.o.set_child(v, Span("N")), "own": lambda st, v: st.o.set_child(v, st.o.get_child(0)),
             "other": lambda st, v: st.o.set_child(v, st.other), "item": lambda st, v: st.o.__setitem__(v, st.other),
             "insert": lambda st, v: st.o.insert(v, Span("N")), "move": lambda st, v: st.o.insert(v, st.o.get_child(0)),
             "fetch": lambda st, v: st.o.insert(v, st.other), "delete": lambda st, v: st.o.del_child(v),
             "delete item": lambda st, v: st.o.__delitem__(v), "get": lambda st, v: st.o.get_child(v),
             "index": lambda st, v: st.o.index(st.other),
             "before other": lambda st, v: st.o.insert_before(st.other, st.o.get_child(0)),
             "fetch before new": lambda st, v: st.o.insert_before(Span("N"), st.other),
             "remove other": lambda st, v: st.o.remove(st.other),
             "replace other": lambda st, v: st.o.replace(st.other, st.o.get_child(0)),
             "header": lambda st, v: setattr(st.list, "header", st.other),
             "other header": lambda st, v: setattr(st.list, "header", v if v == -1 else st.o.get_child(0)),
             "replace new": lambda st, v: st.o.replace(Span("N"), st.other)}

FIELD_OPS = {"new": lambda st, v: st.o.__setitem__(v, Cell("N")), "own": lambda st, v: st.o.__setitem__(v, st.o[0, 0]),
             "cell": lambda st, v: st.o.set_cell(v, Cell("N")), "row": lambda st, v: st.o.row(v),
             "column": lambda st, v: st.o.column(v), "row info": lambda st, v: setattr(st.o.row_info(v), "style_name", "x"),
             "column info": lambda st, v: setattr(st.o.column_info(v), "style_name", "x"),
             "insert rows": lambda st, v: st.o.insert_rows(v), "delete rows": lambda st, v: st.o.delete_rows(v),
             "insert columns": lambda st, v: st.o.insert_columns(v, 2),
             "delete columns": lambda st, v: st.o.delete_columns(v),
             "span": lambda st, v: st.o.set_cell_span(v, (2, 2)), "wide": lambda st, v: st.o.set_cell_span((1, 1), v),
             "no span": lambda st, v: st.o.remove_cell_span(v), "value": lambda st, v: st.o[v].set_value("N"),
             "foreign": lambda st, v: st.o.__setitem__(v, Paragraph("x"))}


def group_ops(*dicts):
    out = {}
    for d in dicts:
        out.update(d)
    return out


# name: (make, states, operations, operations which don't take a text)
GROUPS = {
    "span": (text_make(Span, "text:span"), INNER, TEXT_OPS, NOT_TEXT),
    "paragraph": (text_make(Paragraph, "text:p", " text:style-name='old'"), INNER,
                  group_ops(TEXT_OPS, {"id": setter("ID"), "condition": setter("cond_style_name")}), NOT_TEXT),
    "heading": (text_make(Heading, "text:h"), INNER + ("<text:number>1</text:number>old",),
                group_ops(TEXT_OPS, {"number": setter("formatted_number"), "start": setter("start_value"),
                                     "level": setter("outline_level")}), NOT_TEXT + ("start", "level")),
    "link": (text_make(Hyperlink, "text:a", " xlink:href='old'"), INNER,
             group_ops(TEXT_OPS, {"href": setter("href"), "name": setter("name"),
                                  "frame": setter("target_frame")}), NOT_TEXT),
    "cell": (cell_make, CELLS, CELL_OPS, ("type", "as boolean")),
    "table": (table_make, TABLE, TABLE_OPS, TABLE_NOT + ("named", "removed", "row visibility")),
    "grid": (table_make, GRID, GRID_OPS, tuple(GRID_OPS)),
    "meta": (meta_make, METAS, META_OPS, ("no keyword", "no tag", "count")),
    "variables": (vars_make, VARS, VAR_OPS, ()),
    "manifest": (manifest_make, MANIFESTS, MANIFEST_OPS, ("remove",)),
    "styles": (styles_make, STYLES, STYLE_OPS, ("unknown", "foreign")),
    "list": (list_make, LISTS, LIST_OPS, LIST_NOT),
    "item": (list_make, ITEMS, ITEM_OPS, LIST_NOT),
    "sheets": (sheets_make, SHEETS, SHEETS_OPS, ()),
    "places": (place_make, PLACES, PLACE_OPS, ()),
    "fields": (table_make, GRID, FIELD_OPS, ()),
    "section": (list_make, SECTIONS, SECTION_OPS, LIST_NOT),
}


def snapshot(st):
    return [etree.tostring(r) for r in st.roots]


def cases(tier):
    bad = values(tier)
    for g, (make, states, ops, _) in GROUPS.items():
        numbers = g == "grid"
        good = [("int", 0), ("int", 1)] if numbers else [("good", 0), ("good", 1)]
        places = g in ("sheets", "places", "fields")
        if places:
            good = [("place", 0), ("place", 1)]
        for s in range(len(states)):
            many = bad + [("number", i) for i in range(len(NUMBERS))] if numbers else [
                ("where", i) for i in range(len(WHERE))] if places else bad
            for o in ops:
                for b in many:
                    yield (g, s, ((o, b),))
            few = many if tier != "quick" or places else [b for b in many if b in (
                [("number", 0), ("number", 4)] if numbers else [("bad", 0), ("bad", 2), ("odd", 0)])]
            for o, b in itertools.product(ops, few):
                for p in ops:
                    yield (g, s, ((o, b), (p, good[0])))
                    yield (g, s, ((p, good[1]), (o, b)))
            if tier != "quick":
                for (o, p), b in itertools.product(itertools.product(ops, repeat=2), few[:3]):
                    yield (g, s, ((o, b), (p, b), (o, good[0])))


def run(case):
    g, s, ops = case
    make, states, table, not_text = GROUPS[g]
    a, b = make(states[s]), make(states[s])
    for name, v in ops:
        before = snapshot(a)
        try:
            table[name](a, value(v))
        except Exception as e:
            same("state after refusing %s = %r (%s)" % (name, value(v), e), snapshot(a), before)
        else:
            need(v[0] != "bad" or name in not_text, "%s = %r was not refused", name, value(v))
            table[name](b, value(v))
    same("final state", snapshot(a), snapshot(b))
    if g in ("table", "grid", "fields", "sheets", "meta", "variables", "styles"):
        need(not odf.check_package(a.doc.tobytes(), a.doc.mimetype), "package")
    return case


CHECKS = [
    Check("P34", "model_checking", [Cases("refused values", cases, run)],
          "every operation that stores a value x every state of its target x every value that can't be stored or "
          "has another type, alone and in sequence with valid operations; the tree before and after a refusal, "
          "and the final state without the refused operations"),
]
