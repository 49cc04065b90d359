"""Tables as grids: structure operations, rejections, expansion of repeated
content, spans, cell addressing, copies."""
import copy
import itertools

from lxml import etree

import ezodf
from ezodf import Cell, Paragraph, Table
from ezodf.base import GenericWrapper
from ezodf.table import TableColumn, TableRow
from ezodf.xmlns import wrap

from checks import alias, domain, handles, sizes
from lib.mc import Cases, Check, Machine, Mismatch, Skip, need, rejected, same
from lib.odf import q, tree, xml

ROW, COL, CELL, COVERED = (q("table:table-row"), q("table:table-column"),
                           q("table:table-cell"), q("table:covered-table-cell"))


# ---------------------------------------------------------------- helpers

def xml_parts(table, tag):
    """Rows/columns of a table, found without ezodf: in document order, but
    not those of tables nested in cells."""
    out = []

    def walk(node):
        for c in node:
            if c.tag == tag:
                out.append(c)
            elif c.tag in (ROW, COL):
                continue
            elif isinstance(c.tag, str) and c.tag.startswith("{%s}" % tag[1:].split("}")[0]):
                walk(c)
    walk(table)
    return out


def letters(i):
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(65 + r) + s
    return s


def a1(r, c):
    return "%s%d" % (letters(c), r + 1)


def p(label):
    if label is None:
        return "<table:table-cell/>"
    return ('<table:table-cell office:value-type="string"><text:p>%s</text:p>'
            '</table:table-cell>' % label)


def rows_xml(grid, styles=None):
    return ["<table:table-row%s>%s</table:table-row>"
            % (' table:style-name="%s"' % styles[i] if styles and styles[i] else "",
               "".join(p(c) for c in row)) for i, row in enumerate(grid)]


def colxml(name=None):
    return '<table:table-column%s/>' % (' table:style-name="%s"' % name if name else "")


G23 = (("a", "b", "c"), ("d", "e", None))
G32 = (("a", "b"), ("c", None), ("e", "f"))
G22 = (("a", "b"), ("c", "d"))


def source(kind):
    """(table node or None, grid, row styles, column styles)"""
    if kind.startswith("new"):
        r, c = int(kind[3]), int(kind[4])
        return None, [[None] * c for _ in range(r)], [None] * r, [None] * c
    r23, r32, r22 = rows_xml(G23), rows_xml(G32, ("x", None, "z")), rows_xml(G22, ("x", "y"))
    if kind == "plain":
        t = "".join(map(colxml, ("p", None, "r"))) + "".join(r23)
        g, rs, cs = G23, [None] * 2, ["p", None, "r"]
    elif kind == "header":
        t = ("<table:table-header-columns>%s</table:table-header-columns>%s"
             "<table:table-header-rows>%s</table:table-header-rows>%s"
             % (colxml("p"), colxml("q"), r32[0], r32[1] + r32[2]))
        g, rs, cs = G32, ["x", None, "z"], ["p", "q"]
    elif kind == "groups":
        t = ("<table:table-column-group>%s<table:table-column-group>%s"
             "</table:table-column-group></table:table-column-group>%s"
             "<table:table-row-group>%s<table:table-row-group>%s</table:table-row-group>"
             "</table:table-row-group><table:table-rows>%s</table:table-rows>"
             % (colxml("p"), "", colxml("q"), r32[0], r32[1], r32[2]))
        g, rs, cs = G32, ["x", None, "z"], ["p", "q"]
    elif kind == "tailgroup":
        t = ("%s<table:table-columns>%s</table:table-columns>%s"
             "<table:table-row-group>%s</table:table-row-group>"
             % (colxml("p"), colxml("q"), r22[0], r22[1]))
        g, rs, cs = G22, ["x", "y"], ["p", "q"]
    elif kind == "nocolumns":
        t = "".join(r22)
        g, rs, cs = G22, ["x", "y"], [None, None]
    elif kind == "repeated":
        t = ('<table:table-column table:style-name="p" table:number-columns-repeated="2"/>%s'
             '<table:table-row table:number-rows-repeated="2" table:style-name="x">'
             '<table:table-cell table:number-columns-repeated="2" office:value-type="string">'
             '<text:p>a</text:p></table:table-cell>%s</table:table-row>'
             % (colxml("r"), p("b")))
        g, rs, cs = (("a", "a", "b"),) * 2, ["x", "x"], ["p", "p", "r"]
    elif kind == "ragged":
        t = "".join(map(colxml, ("p", "q"))) + "".join(rows_xml((("a",), ("b", "c"))))
        g, rs, cs = (("a", None), ("b", "c")), [None, None], ["p", "q"]
    elif kind == "prelude":
        t = ("<table:title>t</table:title><table:table-source xlink:href='x'/><office:forms><office:x/></office:forms>"
             "<table:shapes><draw:frame draw:name='f'/></table:shapes>%s%s"
             "<table:named-expressions><table:named-range table:name='n'/></table:named-expressions>" % ("".join(map(colxml, "pq")), "".join(r22)))
        g, rs, cs = G22, ["x", "y"], ["p", "q"]
    elif kind == "nested":
        t = ("%s<table:table-row table:style-name='x'><table:table-cell office:value-type='string'>"
             "<text:p>a</text:p><table:table table:name='IN'>%s%s</table:table>"
             "</table:table-cell>%s</table:table-row>%s"
             % ("".join(map(colxml, "pq")), colxml("in"), rows_xml((("i",), ("j",)))[0],
                p("b"), r22[1]))
        g, rs, cs = G22, ["x", "y"], ["p", "q"]
    elif kind == "surplus":
        # more column-infos than columns of cells
        t = "".join(map(colxml, "pqst")) + "".join(r22)
        g, rs, cs = G22, ["x", "y"], ["p", "q", "s", "t"]
    elif kind == "surplusgroup":
        t = ("<table:table-columns>%s</table:table-columns><table:table-column-group>%s"
             "</table:table-column-group>%s"
             % (colxml("p"), "".join(map(colxml, ("q", None, "t"))), "".join(r32)))
        g, rs, cs = G32, ["x", None, "z"], ["p", "q", None, "t"]
    elif kind == "deep":
        t = ("<table:table-column-group><table:table-column-group><table:table-header-columns>%s"
             "</table:table-header-columns></table:table-column-group><table:table-columns>%s</table:table-columns>"
             "</table:table-column-group><table:table-row-group><table:table-header-rows>%s</table:table-header-rows>"
             "<table:table-row-group><table:table-rows><text:soft-page-break/>%s</table:table-rows>"
             "</table:table-row-group></table:table-row-group><text:soft-page-break/><table:table-rows>%s"
             "<text:soft-page-break/></table:table-rows>" % (colxml("p"), colxml("q"), r32[0], r32[1], r32[2]))
        g, rs, cs = G32, ["x", None, "z"], ["p", "q"]
    elif kind == "rowsgroup":
        t = ("%s<table:table-rows>%s<table:table-row-group>%s%s</table:table-row-group></table:table-rows>"
             % ("".join(map(colxml, "pq")), r32[0], r32[1], r32[2]))
        g, rs, cs = G32, ["x", None, "z"], ["p", "q"]
    elif kind == "pretty":
        t = "\n  " + "\n  ".join(list(map(colxml, "pq")) + r22) + "\n"
        g, rs, cs = G22, ["x", "y"], ["p", "q"]
    else:
        raise KeyError(kind)
    node = xml('<table:table table:name="T">%s</table:table>' % t)
    return node, [list(r) for r in g], list(rs), list(cs)


class Model(object):
    def __init__(self, kind):
        self.node, self.g, self.rs, self.cs = source(kind)
        self.name = "T"
        self.n = 0

    def label(self):
        self.n += 1
        return "L%d" % self.n


class St(object):
    pass


def new_state(kind):
    st = St()
    st.m = Model(kind)
    if st.m.node is None:
        st.t = Table("T", size=(len(st.m.g), len(st.m.g[0])))
    else:
        st.t = Table(xmlnode=st.m.node)
    return st


def read(cell):
    return cell.value


def observe(t, m, who="table"):
    nr, nc = len(m.g), len(m.g[0])
    same(who + ".nrows()", t.nrows(), nr)
    same(who + ".ncols()", t.ncols(), nc)
    same(who + ".name", t.name, m.name)
    for r in range(nr):
        for c in range(nc):
            w = m.g[r][c]
            same("%s[%d, %d]" % (who, r, c), read(t[r, c]), w)
            same("%s[%r]" % (who, a1(r, c)), read(t[a1(r, c)]), w)
            same("%s[%d, %d]" % (who, r - nr, c - nc), read(t[r - nr, c - nc]), w)
            same("%s.get_cell" % who, read(t.get_cell((r, c))), w)
    same(who + ".rows()", [[read(c) for c in row] for row in t.rows()], m.g)
    same(who + ".columns()", [[read(c) for c in col] for col in t.columns()],
         [list(x) for x in zip(*m.g)])
    same(who + ".itercells()", [(pos, read(c)) for pos, c in t.itercells()],
         [((r, c), m.g[r][c]) for r in range(nr) for c in range(nc)])
    for r in range(nr):
        same("%s.row(%d)" % (who, r), [read(c) for c in t.row(r)], m.g[r])
        same("%s.row(%d)" % (who, r - nr), [read(c) for c in t.row(r - nr)], m.g[r])
        same("%s.row_info(%d).style_name" % (who, r), t.row_info(r).style_name, m.rs[r])
        same("%s.row_info(%d).kind" % (who, r), t.row_info(r).kind, "TableRow")
    for c in range(nc):
        col = [m.g[r][c] for r in range(nr)]
        same("%s.column(%d)" % (who, c), [read(x) for x in t.column(c)], col)
        same("%s.column(%d)" % (who, c - nc), [read(x) for x in t.column(c - nc)], col)
        same("%s.column_info(%d).style_name" % (who, c), t.column_info(c).style_name, m.cs[c])
        same("%s.column_info(%r)" % (who, a1(0, c)), t.column_info(a1(0, c)).style_name, m.cs[c])
        same("%s.column_info(%d)" % (who, c - nc), t.column_info(c - nc).style_name, m.cs[c])
    same(who + ".row('A<last>')", [read(c) for c in t.row(a1(nr - 1, 0))], m.g[-1])
    same(who + ".column('<last>1')", [read(c) for c in t.column(a1(0, nc - 1))],
         [row[-1] for row in m.g])
    same(who + ".row_info('..')", t.row_info(a1(nr - 1, 0)).style_name, m.rs[-1])
    same(who + ".column_info('..')", t.column_info(a1(0, nc - 1)).style_name, m.cs[nc - 1])
    # the document tree says the same
    rows, cols = xml_parts(t.xmlnode, ROW), xml_parts(t.xmlnode, COL)
    same(who + ": rows in the XML", len(rows), nr)
    same(who + ": columns in the XML", len(cols), len(m.cs))
    need(all(c.get(q("table:number-columns-repeated"), "1") == "1" for c in cols),
         "%s: repetition left in the XML columns", who)
    same(who + ": row styles in the XML", [r.get(q("table:style-name")) for r in rows], m.rs)
    same(who + ": column styles in the XML", [c.get(q("table:style-name")) for c in cols], m.cs)
    for r, row in enumerate(rows):
        cells = [c for c in row if c.tag in (CELL, COVERED)]
        same(who + ": cells in XML row %d" % r, len(cells), nc)
        need(all(c.get(q("table:number-columns-repeated"), "1") == "1" for c in cells)
             and row.get(q("table:number-rows-repeated"), "1") == "1",
             "%s: repetition left in XML row %d", who, r)
        same(who + ": text in XML row %d" % r,
             ["".join(c.itertext()) if len(c) else None for c in cells]
             if not any(len(c) and c[-1].tag == q("table:table") for c in cells) else m.g[r],
             m.g[r])
    order = [n.tag for n in t.xmlnode.iter(ROW, COL)
             if next(n.iterancestors(q("table:table"))) is t.xmlnode]
    need(order == sorted(order, key=lambda x: x == ROW), "%s: columns after rows in the XML", who)


def norm(i, n):
    return i + n if i < 0 else i


class Structure(Machine):
    """Every sequence of structure operations against a grid of labels."""
    name = "grid"

    def configs(self, tier):
        kinds = ["header", "groups", "tailgroup", "nocolumns", "repeated", "ragged",
                 "prelude", "nested", "pretty", "surplus", "surplusgroup", "deep", "rowsgroup",
                 "new11", "new13", "new31"]
        if tier == "quick":
            return [("new23", 3, False), ("plain", 2, False)] + [(k, 2, False) for k in kinds]
        return ([("new23", 4, False)] + [(k, 3, False) for k in ["plain"] + kinds])

    def ops(self, cfg):
        o = [("ar", 1), ("ar", 2), ("ac", 1), ("ac", 2)]
        for x in ("r", "c"):
            o += [("i" + x, 0, 1), ("i" + x, 1, 2), ("i" + x, -1, 1), ("i" + x, -2, 2),
                  ("d" + x, 0, 1), ("d" + x, -1, 1), ("d" + x, 1, 2), ("d" + x, -2, 1),
                  ("d" + x, 0, 2)]
        o += [("val", 0, 0), ("cell", -1, -1), ("cell", 1, 0), ("rs", 0), ("cs", -1),
              ("clear",), ("reset", 2, 3), ("look",), ("copy",), ("rewrap",)]
        return o

    def init(self, cfg):
        return new_state(cfg)

    def step(self, st, op):
        t, m = st.t, st.m
        nr, nc = len(m.g), len(m.g[0])
        k = op[0]
        if k == "ar":
            t.append_rows(op[1])
            m.g += [[None] * nc for _ in range(op[1])]
            m.rs += [None] * op[1]
        elif k == "ac":
            if len(m.cs) > nc:
                return              # unspecified: which of the column-infos are the new ones
            t.append_columns(op[1])
            for row in m.g:
                row += [None] * op[1]
            m.cs += [None] * op[1]
        elif k in ("ir", "ic", "dr", "dc"):
            i, cnt = op[1:]
            n = nr if k[1] == "r" else nc
            j = norm(i, n)
            if k[0] == "i":
                if not 0 <= j < n:
                    return
                if k == "ir":
                    t.insert_rows(i, cnt)
                    m.g[j:j] = [[None] * nc for _ in range(cnt)]
                    m.rs[j:j] = [None] * cnt
                else:
                    t.insert_columns(i, cnt)
                    for row in m.g:
                        row[j:j] = [None] * cnt
                    m.cs[j:j] = [None] * cnt
            else:
                if not 0 <= j < n or j + cnt > n or cnt >= n:
                    return
                if k == "dr":
                    t.delete_rows(i, cnt)
                    del m.g[j:j + cnt], m.rs[j:j + cnt]
                else:
                    t.delete_columns(i, cnt)
                    for row in m.g:
                        del row[j:j + cnt]
                    del m.cs[j:j + cnt]
        elif k in ("val", "cell"):
            r, c = op[1:]
            if not (-nr <= r < nr and -nc <= c < nc):
                return
            lab = m.label()
            if k == "val":
                t[r, c].set_value(lab)
            else:
                t[r, c] = Cell(lab)
            m.g[r][c] = lab
        elif k == "rs":
            m.rs[op[1]] = m.label()
            t.row_info(op[1]).style_name = m.rs[op[1]]
        elif k == "cs":
            m.cs[norm(op[1], nc)] = m.label()
            t.column_info(op[1]).style_name = m.cs[norm(op[1], nc)]
        elif k == "clear":
            t.clear()
            m.g = [[None] * nc for _ in range(nr)]
            m.rs, m.cs = [None] * nr, [None] * nc
        elif k == "reset":
            t.reset(size=op[1:])
            m.g = [[None] * op[2] for _ in range(op[1])]
            m.rs, m.cs = [None] * op[1], [None] * op[2]
        elif k == "look":
            observe(t, m)
        elif k == "copy":
            # continue with the copy, the original is checked at the end
            st.old = getattr(st, "old", [])
            st.old.append((t, copy.deepcopy(m)))
            st.t = t.copy("T")
        elif k == "rewrap":
            # what the next program sees after the XML was written and read
            st.t = Table(xmlnode=etree.fromstring(etree.tostring(t.xmlnode)))

    def observe(self, st):
        observe(st.t, st.m)
        for t, m in getattr(st, "old", []):
            observe(t, m, "copied table")
        # the same grid from the serialised tree
        t2 = Table(xmlnode=etree.fromstring(etree.tostring(st.t.xmlnode)))
        observe(t2, st.m, "reread table")

    def canon(self, st):
        return (tuple(map(tuple, st.m.g)), tuple(st.m.rs), tuple(st.m.cs))


def count_cases(tier):
    """Single operations with every index and larger counts."""
    for kind in ("new23", "new11", "new13", "new31", "plain", "header", "groups", "tailgroup",
                 "nocolumns", "repeated", "ragged", "prelude", "nested", "pretty", "surplus",
                 "surplusgroup", "deep", "rowsgroup"):
        m = Model(kind)
        nr, nc = len(m.g), len(m.g[0])
        top = 7 if tier == "quick" else 12
        for pre in ((), (("ar", 5),), (("ac", 5),)):
            if pre == (("ac", 5),) and len(m.cs) > nc:
                continue
            r, c = nr + (5 if pre and pre[0][0] == "ar" else 0), nc + (5 if pre and pre[0][0] == "ac" else 0)
            for x, n in (("r", r), ("c", c)):
                for cnt in range(1, top):
                    if x == "r" or len(m.cs) == nc:
                        yield (kind, pre, ("a" + x, cnt))
                    for i in range(-n, n):
                        yield (kind, pre, ("i" + x, i, cnt))
                        if norm(i, n) + cnt <= n and cnt < n:
                            yield (kind, pre, ("d" + x, i, cnt))


def count_run(case):
    kind, pre, op = case
    s = Structure()
    st = new_state(kind)
    for o in pre:
        s.step(st, o)
    for r in range(len(st.m.g)):
        for c in range(len(st.m.g[0])):
            if st.m.g[r][c] is None:
                s.step(st, ("val", r, c))
        s.step(st, ("rs", r))
    for c in range(len(st.m.g[0])):
        s.step(st, ("cs", c))
    s.step(st, op)
    s.observe(st)
    # new cells are independent cells
    for r in range(len(st.m.g)):
        for c in range(len(st.m.g[0])):
            if st.m.g[r][c] is None:
                s.step(st, ("val", r, c))
    s.observe(st)
    return (kind, tuple(map(tuple, st.m.g)))


def default_cases(tier):
    """Documented default values of arguments."""
    for kind in ("new23", "plain", "groups", "surplus"):
        for op in (("append_rows",), ("append_columns",), ("insert_rows", 1), ("insert_rows", -1),
                   ("insert_columns", 1), ("insert_columns", -2), ("delete_rows", 1),
                   ("delete_rows", -2), ("delete_columns", 0), ("delete_columns", -1)):
            if not (kind == "surplus" and op == ("append_columns",)):
                yield (kind, op)
        yield (kind, ("reset",))
        yield (kind, ("reset", "keyword"))
    yield ("constructor", ())
    yield ("constructor", ("N",))
    yield ("constructor", ("N", (4, 2)))


def default_run(case):
    kind, op = case
    if kind == "constructor":
        t = Table(*op)
        size = op[1] if len(op) > 1 else (10, 10)
        same("name", t.name, op[0] if op else "NEWTABLE")
        same("size", (t.nrows(), t.ncols()), size)
        same("values", {c.value for _, c in t.itercells()}, {None})
        return case
    st = new_state(kind)
    m, s = st.m, Structure()
    for r in range(len(m.g)):
        for c in range(len(m.g[0])):
            s.step(st, ("val", r, c))
    if op[0] == "reset":
        if len(op) > 1:
            st.t.reset(size=(2, 3))
            s.step(st, ("reset", 2, 3))
        else:
            st.t.reset()
            m.g, m.rs, m.cs = [[None] * 10 for _ in range(10)], [None] * 10, [None] * 10
    else:
        t = st.t
        st.t = Table(xmlnode=copy.deepcopy(t.xmlnode))      # takes the explicit call
        short = {"append": "a", "insert": "i", "delete": "d"}[op[0].split("_")[0]] + \
            op[0].split("_")[1][0]
        s.step(st, (short,) + op[1:] + (1,))
        getattr(t, op[0])(*op[1:])
        st.t = t
    observe(st.t, m)
    return case


# ---------------------------------------------------------------- rejections

BIG = 10 ** 6


OTHERS = {
    "text": lambda: "text", "none": lambda: None, "int": lambda: 1, "float": lambda: 1.5,
    "para": lambda: Paragraph("X"), "heading": lambda: ezodf.Heading("X"),
    "span": lambda: ezodf.Span("X"), "list": lambda: ezodf.ezlist(["X"]),
    "item": lambda: ezodf.ListItem("X"), "section": lambda: ezodf.Section("X"),
    "link": lambda: ezodf.Hyperlink("X"), "table": lambda: Table("X"),
    "row": lambda: TableRow(ncols=2), "column": lambda: TableColumn(),
    "generic": lambda: wrap(xml("<table:cell-range-source/>")),
    "names": lambda: wrap(xml("<table:named-expressions/>")),
    "element": lambda: xml("<table:table-cell/>"), "class": lambda: Cell,
    "cells": lambda: [Cell("X")], "dict": lambda: {"kind": "Cell"},
}


def bad_ops(nr, nc):
    o = []
    for x, n in (("rows", nr), ("columns", nc)):
        for cnt in (0, -1, -5):
            o.append(("append_" + x, cnt))
            o.append(("insert_" + x, 0, cnt))
            o.append(("insert_" + x, -1, cnt))
            o.append(("delete_" + x, 0, cnt))
            o.append(("delete_" + x, -1, cnt))
        for i in range(-n - 4, n + 4):
            for cnt in (1, 2, 3):
                j = norm(i, n)
                if not 0 <= j < n:
                    o.append(("insert_" + x, i, cnt))
                if not 0 <= j < n or j + cnt > n or cnt >= n:
                    o.append(("delete_" + x, i, cnt))
        o += [("delete_" + x, 0, n), ("delete_" + x, 0, n + 1), ("delete_" + x, -1, 2),
              ("insert_" + x, BIG), ("delete_" + x, BIG), ("delete_" + x, -BIG),
              ("insert_" + x, -BIG)]
    o += [("reset", s) for s in ((0, 1), (1, 0), (0, 0), (-1, 2), (2, -1))]
    for r, c in itertools.product(range(-nr - 3, nr + 3), range(-nc - 3, nc + 3)):
        if not (-nr <= r < nr and -nc <= c < nc):
            o += [("get", r, c), ("set", r, c)]
    o += [("set_other", k) for k in sorted(OTHERS)]
    o += [("get_a1", a) for a in ("", "A", "1", "A0", "0A", "A-1", "A1B", "A1:B2", "$A$1",
                                  "A 1", " A1", "A1 ", "A1.0", "a", "A1\n", "Ä1")]
    o += [("get_a1", a1(nr, 0)), ("get_a1", a1(0, nc)), ("set_a1", a1(nr, 0)),
          ("set_a1", a1(0, nc)), ("set_a1", "A0"), ("set_a1", "")]
    o += [("get_key", k) for k in (1.5, None, (1,), (1, 2, 3))]
    o += [("row", nr), ("row", -nr - 1), ("column", nc), ("column", -nc - 1),
          ("row_info", nr), ("row_info", -nr - 1), ("column_info", nc),
          ("column_info", -nc - 1), ("row", "1"), ("column", "A"), ("row_info", "?"),
          ("column_info", "?")]
    o += [("span", p_, s) for p_, s in (
        ((0, 0), (0, 1)), ((0, 0), (1, 0)), ((0, 0), (-1, 2)), ((0, 0), (nr + 1, 1)),
        ((0, 0), (1, nc + 1)), ((nr, 0), (1, 1)), ((0, nc), (1, 1)), ((-1, 0), (1, 1)),
        ((0, -1), (1, 1)), ((nr - 1, 0), (2, 1)), ((0, nc - 1), (1, 2)))]
    return list(dict.fromkeys(o))


def do_bad(t, op):
    k = op[0]
    if k == "get":
        return t[op[1], op[2]]
    if k == "set":
        t[op[1], op[2]] = Cell("X")
    elif k == "set_other":
        t[0, 0] = OTHERS[op[1]]()
    elif k in ("get_a1", "get_key"):
        return t[op[1]]
    elif k == "set_a1":
        t[op[1]] = Cell("X")
    elif k == "span":
        t.set_cell_span(op[1], op[2])
    else:
        r = getattr(t, k)(*op[1:])
        return r
    return None


REJ = [("new23", ()), ("new11", ()), ("plain", ()), ("header", ()), ("groups", ()),
       ("nocolumns", ()), ("repeated", ()), ("nested", ()), ("pretty", ()), ("surplus", ()),
       ("plain", (("dr", 0, 1),)), ("plain", (("dc", 0, 2),)), ("new23", (("ar", 2), ("ac", 1))),
       ("header", (("dr", 0, 1),)), ("groups", (("ir", 1, 2), ("dc", 1, 1)))]


def rej_cases(tier):
    s = Structure()
    prefixes = list(REJ)
    if tier != "quick":
        prefixes += [(k, (op,)) for k in ("new23", "plain", "groups", "nested")
                     for op in s.ops(k)]
    for kind, prefix in prefixes:
        st = new_state(kind)
        for op in prefix:
            s.step(st, op)
        for op in bad_ops(len(st.m.g), len(st.m.g[0])):
            if kind.startswith("surplus") and op == ("column_info", len(st.m.g[0])):
                continue            # the additional column-infos can be read
            yield (kind, prefix, op)


def rej_run(case):
    kind, prefix, op = case
    s = Structure()
    st = new_state(kind)
    for o in prefix:
        s.step(st, o)
    before = etree.tostring(st.t.xmlnode)
    rejected("%s%r" % (op[0], op[1:]), lambda: do_bad(st.t, op))
    after = etree.tostring(st.t.xmlnode)
    need(before == after, "rejected %r changed the table:\n%s\n%s", op, before, after)
    s.observe(st)
    # the table still works
    s.step(st, ("ir", 0, 1))
    s.step(st, ("ac", 1))
    s.step(st, ("dc", 0, 1))
    s.observe(st)
    return (kind, prefix, op)


# ---------------------------------------------------------------- repeated content

STRATEGIES = (("all", None), ("all_but_last", None), ("all_less_maxcount", None),
              ("all_less_maxcount", (3, 2)), ("all_less_maxcount", (2, 4)), ("default", None))


def exp_count(n, last, strategy, limit):
    if strategy == "all":
        return n
    if strategy == "all_but_last":
        return 1 if last else n
    return n if n < limit else 1


def expand_table(rows, cols):
    """rows: tuple of (row repeat, tuple of (cell repeat, label, covered))"""
    out = []
    for i, (n, style) in enumerate(cols):
        out.append('<table:table-column table:style-name="%s"%s/>'
                   % (style, rep("columns", n)))
    for n, cells in rows:
        r = "<table:table-row%s>" % rep("rows", n)
        for m, lab in cells:
            r += ('<table:table-cell office:value-type="string"%s><text:p>%s</text:p>'
                  '</table:table-cell>' % (rep("columns", m), lab))
        out.append(r + "</table:table-row>")
    return xml('<table:table table:name="T">%s</table:table>' % "".join(out))


def rep(what, n):
    return ' table:number-%s-repeated="%d"' % (what, n) if n is not None else ""


def expected(rows, cols, strategy, maxcount):
    st, (mr, mc) = strategy, maxcount
    g = []
    for i, (n, cells) in enumerate(rows):
        row = []
        for j, (m, lab) in enumerate(cells):
            row += [lab] * exp_count(m or 1, j == len(cells) - 1, st, mc)
        for _ in range(exp_count(n or 1, i == len(rows) - 1, st, mr)):
            g.append(list(row))
    w = max(map(len, g)) if g else 0
    for row in g:
        row += [None] * (w - len(row))
    cs = []
    for j, (n, s) in enumerate(cols):
        cs += [s] * exp_count(n or 1, j == len(cols) - 1, st, mc)
    return g, cs


def exp_cases(tier):
    cnt = (None, 1, 2, 3, 4)
    big = (31, 32, 33, 1000)
    # all row repeat pairs x all cell repeat pairs (small)
    reps = cnt if tier == "quick" else cnt + (5,)
    shapes = []
    for a, b in itertools.product(reps, repeat=2):
        for c, d in itertools.product(reps, repeat=2):
            shapes.append((((a, ((c, "a"), (d, "b"))), (b, ((None, "c"), (None, "d")))),
                           ((c, "p"), (d, "q"))))
    # ragged rows
    for a, b, c, d in itertools.product((None, 2, 3), (None, 2, 3), (None, 2), (None, 3)):
        shapes.append((((a, ((b, "a"),)), (c, ((None, "c"), (d, "d"))), (None, ((2, "e"),))),
                       ((None, "p"),)))
    # the default limit, first and last position, rows and columns
    for n in big:
        shapes += [
            (((None, ((n, "a"), (None, "b"))),), ((n, "p"), (None, "q"))),
            (((None, ((None, "a"), (n, "b"))),), ((None, "p"), (n, "q"))),
            (((n, ((None, "a"), (None, "b"))), (None, ((None, "c"), (None, "d")))),
             ((None, "p"), (None, "q"))),
            (((None, ((None, "a"),)), (n, ((None, "c"),))), ((None, "p"),)),
            (((None, ((n, "a"), (None, "b"))), (None, ((None, "c"), (n, "d")))),
             ((n, "p"), (None, "q"))),
        ]
    for sh in shapes:
        for st in STRATEGIES:
            yield (sh, st)


def exp_run(case):
    (rows, cols), (strategy, maxcount) = case
    if strategy == "default":
        ezodf.config.set_table_expand_strategy("all")
        ezodf.config.reset_table_expand_strategy()
        eff, mx = "all_less_maxcount", (32, 32)
    else:
        if maxcount:
            ezodf.config.set_table_expand_strategy(strategy, maxcount)
        else:
            ezodf.config.set_table_expand_strategy(strategy)
        eff, mx = strategy, maxcount or (32, 32)
    try:
        t = Table(xmlnode=expand_table(rows, cols))
    finally:
        ezodf.config.reset_table_expand_strategy()
    g, cs = expected(rows, cols, eff, mx)
    m = St()
    m.g, m.rs, m.name = g, [None] * len(g), "T"
    nc = len(g[0])
    if len(cs) > nc:          # more column-infos than cells: kept in the XML
        same("nrows", t.nrows(), len(g))
        same("ncols", t.ncols(), nc)
        same("rows", [[c.value for c in r] for r in t.rows()], g)
        for j in range(nc):
            same("column_info(%d)" % j, t.column_info(j).style_name, cs[j])
        same("columns in the XML", [(c.get(q("table:style-name")),
                                     c.get(q("table:number-columns-repeated"), "1"))
                                    for c in xml_parts(t.xmlnode, COL)], [(c, "1") for c in cs])
    else:
        m.cs = cs + [None] * (nc - len(cs))
        observe(t, m)
    # expanded cells are independent of each other
    for r in (0, len(g) - 1):
        t[r, 0].set_value("X")
        g[r][0] = "X"
    t.row_info(0).style_name = "only"
    same("cells after one was changed", [[c.value for c in r] for r in t.rows()], g)
    same("row styles after one was changed", [t.row_info(r).style_name for r in range(len(g))],
         ["only"] + [None] * (len(g) - 1))
    # a second wrapping of the same tree changes nothing
    before = etree.tostring(t.xmlnode)
    t2 = Table(xmlnode=etree.fromstring(before))
    same("rewrapped", [[c.value for c in r] for r in t2.rows()], g)
    return (len(g), nc, tuple(map(tuple, g))[:4], len(cs))


def exp_grid_cases(tier):
    """Formatting, covered cells and non-string values survive expansion."""
    for n in (1, 2, 3, 31, 32):
        for kind in ("float", "covered", "style", "span", "empty", "protected"):
            for rown in (1, 2):
                for grp in (0, 1):
                    yield (n, kind, rown, grp)


CELLS = {
    "float": '<table:table-cell%s office:value-type="float" office:value="4.5"><text:p>4,5</text:p></table:table-cell>',
    "covered": '<table:covered-table-cell%s table:style-name="cc"/>',
    "style": '<table:table-cell%s table:style-name="ss" table:formula="of:=1"/>',
    "span": '<table:table-cell%s table:style-name="sp"><text:p>x<text:span>y</text:span>z</text:p><text:p>2</text:p></table:table-cell>',
    "empty": '<table:table-cell%s/>',
    "protected": '<table:table-cell%s table:protect="true" table:content-validation-name="v"/>',
}


def exp_grid_run(case):
    n, kind, rown, grp = case
    cell = CELLS[kind]
    row = ("<table:table-row table:style-name='rs'%s>%s<table:table-cell/></table:table-row>"
           % (rep("rows", rown), cell % rep("columns", n)))
    last = "<table:table-row><table:table-cell/></table:table-row>"
    if grp:
        row = "<table:table-row-group>%s</table:table-row-group>" % row
    t = Table(xmlnode=xml('<table:table table:name="T">%s%s</table:table>' % (row, last)))
    k = n if n < 32 else 1
    same("nrows", t.nrows(), rown + 1)
    same("ncols", t.ncols(), k + 1)
    want = tree(xml(cell % ""))
    skip = (q("table:number-columns-repeated"),)    # "1", see observe()
    for r in range(rown):
        same("row style", t.row_info(r).style_name, "rs")
        for c in range(k):
            same("cell %d,%d" % (r, c), tree(t[r, c].xmlnode, skip), want)
        same("last cell", tree(t[r, k].xmlnode), tree(xml("<table:table-cell/>")))
    for c in range(k + 1):
        same("padded cell", t[rown, c].value, None)
    return case


INNER = ('<table:table table:name="IN"><table:table-column table:number-columns-repeated="3"/>'
         '<table:table-row table:number-rows-repeated="2"><table:table-cell '
         'table:number-columns-repeated="3"/></table:table-row></table:table>')
WRAPS = {
    "": "%s", "header": "<table:table-header-{0}s>%s</table:table-header-{0}s>",
    "group": "<table:table-{0}-group>%s</table:table-{0}-group>",
    "inner": "<table:table-{0}-group><table:table-{0}-group>%s</table:table-{0}-group>"
             "</table:table-{0}-group>",
    "part": "<table:table-{0}s>%s</table:table-{0}s>",
}


def exp_struct_cases(tier):
    """Repetitions inside of header rows, groups and around nested tables."""
    for st in STRATEGIES:
        for wa, wb in itertools.product(WRAPS, repeat=2):
            for wc in WRAPS:
                for nest in (None, (0, 0), (1, 1)):
                    if tier == "quick" and nest and wc not in ("", "group"):
                        continue
                    for a, b in ((2, 3), (None, 2), (4, None)):
                        for wd in sorted({"", wc}) if tier == "quick" or nest else WRAPS:
                            yield (st, wa, wb, wc, nest, a, b, wd)


def exp_struct_run(case):
    (strategy, maxcount), wa, wb, wc, nest, a, b, wd = case
    rows = ((a, ((2, "a"), (None, "b"))), (b, ((None, "c"), (b, "d"))))
    cols = ((2, "p"), (b, "q"))
    xr, xc = [], []
    for i, (n, cells) in enumerate(rows):
        r = "<table:table-row%s>" % rep("rows", n)
        for j, (m, lab) in enumerate(cells):
            r += ('<table:table-cell office:value-type="string"%s><text:p>%s</text:p>%s'
                  '</table:table-cell>' % (rep("columns", m), lab, INNER if nest == (i, j) else ""))
        xr.append(WRAPS[(wa, wb)[i]].format("row") % (r + "</table:table-row>"))
    for (n, style), w in zip(cols, (wc, wd)):
        xc.append(WRAPS[w].format("column") % (
            '<table:table-column table:style-name="%s"%s/>' % (style, rep("columns", n))))
    node = xml('<table:table table:name="T">%s</table:table>' % "".join(xc + xr))
    kw = (strategy,) + ((maxcount,) if maxcount else ())
    if strategy == "default":
        kw = ("all_less_maxcount",)
    ezodf.config.set_table_expand_strategy(*kw)
    try:
        t = Table(xmlnode=node)
    finally:
        ezodf.config.reset_table_expand_strategy()
    g, cs = expected(rows, cols, kw[0], maxcount or (32, 32))
    inner = [tree(e) for e in t.xmlnode.iter(q("table:table")) if e is not t.xmlnode]
    lab = nest and rows[nest[0]][1][nest[1]][1]
    same("nested tables", inner, [tree(xml(INNER))] * sum(row.count(lab) for row in g if nest))
    m = St()
    m.g, m.rs, m.name = g, [None] * len(g), "T"
    m.cs = cs + [None] * (len(g[0]) - len(cs))
    observe(t, m)
    return case


# ---------------------------------------------------------------- spans

SPANNED = (q("table:number-rows-spanned"), q("table:number-columns-spanned"))


class Spans(Machine):
    """Sets of disjoint rectangles."""
    name = "spans"

    def configs(self, tier):
        if tier == "quick":
            return [((3, 3), 3, True), ((2, 4), 2, True), ((3, 3), 2, False), ((1, 1), 2, False)]
        return [((3, 3), 5, True), ((2, 4), 5, True), ((4, 4), 3, True), ((3, 3), 3, False),
                ((1, 1), 3, False), ((1, 3), 4, False)]

    def ops(self, cfg):
        nr, nc = cfg
        o = []
        for r, c in itertools.product(range(nr), range(nc)):
            o.append(("rm", (r, c)))
            for h, w in itertools.product(range(1, nr + 1), range(1, nc + 1)):
                if r + h <= nr + 1 and c + w <= nc + 1:
                    o.append(("set", (r, c), (h, w)))
        return o

    def start(self, cfg):
        st = St()
        st.size = cfg
        st.t = Table("T", size=cfg)
        for (r, c), cell in st.t.itercells():
            # some cells are empty: they have no value and no paragraph
            empty = (r, c) in ((0, 1), (1, 1), (2, 0))
            if not empty:
                cell.set_value(a1(r, c))
            cell.style_name = "s" + a1(r, c)
            cell.formula = "of:=%d" % r
            cell.protected = (r + c) % 2 == 0
            cell.content_validation_name = "v" + a1(r, c)
            cell.set_attr(q("table:xmlid"), "x" + a1(r, c))
            if not empty:
                cell.append(Paragraph("more"))
        st.before = [tree(c.xmlnode)[1:] for _, c in st.t.itercells()]
        return st

    def init(self, cfg):
        st = self.start(cfg)
        st.spans = {}
        return st

    @staticmethod
    def area(pos, size):
        return set(itertools.product(range(pos[0], pos[0] + size[0]),
                                     range(pos[1], pos[1] + size[1])))

    def step(self, st, op):
        pos = op[1]
        ref = a1(*pos) if (pos[0] + pos[1]) % 2 else pos
        if op[0] == "rm":
            st.t.remove_cell_span(ref)
            st.spans.pop(pos, None)
            return
        size = op[2]
        area = self.area(pos, size)
        taken = set().union(*[self.area(p_, s) for p_, s in st.spans.items()]) \
            if st.spans else set()
        fits = pos[0] + size[0] <= st.size[0] and pos[1] + size[1] <= st.size[1]
        if not fits or area & taken:
            before = etree.tostring(st.t.xmlnode)
            rejected("set_cell_span%r over %r" % (op[1:], sorted(st.spans.items())),
                     lambda: st.t.set_cell_span(ref, size))
            need(etree.tostring(st.t.xmlnode) == before, "rejected span changed the table")
        else:
            st.t.set_cell_span(ref, size)
            if size != (1, 1):
                st.spans[pos] = size

    def observe(self, st):
        for (r, c), cell in st.t.itercells():
            covered = any((r, c) in self.area(p_, s) and (r, c) != p_
                          for p_, s in st.spans.items())
            same("%s.covered" % a1(r, c), cell.covered, covered)
            same("%s.span" % a1(r, c), cell.span, st.spans.get((r, c), (1, 1)))
            same("%s.kind" % a1(r, c), cell.kind, "Cell")
            same("%s.style_name" % a1(r, c), cell.style_name, "s" + a1(r, c))
            same("%s apart from spans" % a1(r, c), tree(cell.xmlnode, SPANNED)[1:],
                 st.before[r * st.size[1] + c])
            n = cell.xmlnode
            same("%s tag" % a1(r, c), n.tag, COVERED if covered else CELL)
            has = {k for k in n.attrib if "spanned" in k}
            if (r, c) in st.spans:
                same("%s attributes" % a1(r, c),
                     (n.get(q("table:number-rows-spanned")),
                      n.get(q("table:number-columns-spanned"))),
                     tuple(map(str, st.spans[r, c])))
            else:
                same("%s attributes" % a1(r, c), has, set())
        same("size", (st.t.nrows(), st.t.ncols()), st.size)

    def canon(self, st):
        return tuple(sorted(st.spans.items()))


def loaded_span_cases(tier):
    for pos in itertools.product(range(3), range(3)):
        for size in itertools.product(range(1, 4), repeat=2):
            if pos[0] + size[0] <= 3 and pos[1] + size[1] <= 3:
                for act in ("read", "rm") + tuple(
                        ("set", p_, s) for p_ in itertools.product(range(3), range(3))
                        for s in ((1, 1), (1, 2), (2, 1), (2, 2))):
                    yield (pos, size, act)


def loaded_span_run(case):
    """Spans which come from a document behave like spans set by the library."""
    pos, size, act = case
    sp = Spans()
    area = sp.area(pos, size) - {pos}
    rows = []
    for r in range(3):
        row = ""
        for c in range(3):
            tag = "table:covered-table-cell" if (r, c) in area else "table:table-cell"
            att = ""
            if (r, c) == pos and size != (1, 1):
                att = (' table:number-rows-spanned="%d" table:number-columns-spanned="%d"' % size)
            row += ('<%s%s office:value-type="string" table:style-name="s%s"><text:p>%s</text:p></%s>'
                    % (tag, att, a1(r, c), a1(r, c), tag))
        rows.append("<table:table-row>%s</table:table-row>" % row)
    st = St()
    st.size = (3, 3)
    st.t = Table(xmlnode=xml('<table:table table:name="T">%s</table:table>' % "".join(rows)))
    st.spans = {pos: size} if size != (1, 1) else {}
    st.before = [tree(c.xmlnode, SPANNED)[1:] for _, c in st.t.itercells()]
    if act == "rm":
        sp.step(st, ("rm", pos))
    elif act != "read":
        sp.step(st, act)
    sp.observe(st)
    return (pos, size, act)


def beyond_cases(tier):
    for pos in itertools.product(range(3), range(3)):
        for size in itertools.product((1, 2, 3, 4, 40), repeat=2):
            if pos[0] + size[0] > 3 or pos[1] + size[1] > 3:
                for how in ("plain",) + (("repeated",) if pos[0] == 1 and size[0] == 40 else ()):
                    for p_ in [None] + list(itertools.product(range(3), range(3))):
                        for s in ((2, 1), (1, 2)) if p_ else (None,):
                            yield (pos, size, how, p_, s)


def beyond_run(case):
    """Spans of documents which are larger than the table, because repeated rows
    were not expanded."""
    pos, size, how, p_, s = case
    area = {(r, c) for r in range(3) for c in range(3)
            if 0 <= r - pos[0] < size[0] and 0 <= c - pos[1] < size[1]}
    rows = ""
    for r in range(3):
        row = ""
        for c in range(3):
            att = "" if (r, c) != pos else \
                ' table:number-rows-spanned="%d" table:number-columns-spanned="%d"' % size
            row += '<table:%stable-cell%s><text:p>%s</text:p></table:%stable-cell>' % (
                ("covered-" if (r, c) in area and (r, c) != pos else ""), att, a1(r, c),
                ("covered-" if (r, c) in area and (r, c) != pos else ""))
        rep = ' table:number-rows-repeated="39"' if how == "repeated" and r == 2 else ""
        rows += "<table:table-row%s>%s</table:table-row>" % (rep, row)
    t = Table(xmlnode=xml('<table:table table:name="T">%s</table:table>' % rows))
    same("size", (t.nrows(), t.ncols()), (3, 3))

    def look(spans, covered):
        for x in (t, Table(xmlnode=etree.fromstring(etree.tostring(t.xmlnode)))):
            for (r, c), cell in x.itercells():
                same("span of %s" % a1(r, c), cell.span, spans.get((r, c), (1, 1)))
                same("covered %s" % a1(r, c), cell.covered, (r, c) in covered)
                same("text of %s" % a1(r, c), [p.plaintext() for p in cell], [a1(r, c)])

    spans, covered = {pos: size}, area - {pos}
    look(spans, covered)
    if p_ is not None:
        new = {(p_[0] + r, p_[1] + c) for r in range(s[0]) for c in range(s[1])}
        if new & area or max(new)[0] > 2 or max(c for _, c in new) > 2:
            rejected("span %r at %r" % (s, p_), lambda: t.set_cell_span(p_, s))
        else:
            t.set_cell_span(p_, s)
            spans[p_] = s
            covered |= new - {p_}
        look(spans, covered)
    t.remove_cell_span(pos)
    del spans[pos]
    look(spans, covered - area)
    return (size, how)


# ---------------------------------------------------------------- addresses

LETTERS = "ABMYZ"


SOURCES = ("plain", "header", "groups", "tailgroup", "nocolumns", "repeated", "ragged", "prelude", "nested", "surplus",
           "surplusgroup", "deep", "rowsgroup", "pretty")


def addr_cases(tier):
    n = 1 if tier == "quick" else 3
    # every column name with one and two letters (and three: thorough, by first letter)
    for block in range(27):
        yield ("block", block)
    for block in range(26):
        yield ("block3", block)
    for a in LETTERS:
        for b in LETTERS:
            yield ("long", a + b)
    for r in range(0, 130):
        yield ("zero", r)
    for r in list(range(0, 120)) + [998, 999, 9998, 65535, 1048575] + \
            [10 ** k + j for k in range(2, 19) for j in (-2, -1, 0, 1)]:
        yield ("row", r)
    for nr in (1, 2, 3, 4, 70):
        for nc in (1, 2, 3, 4, 70):
            yield ("outside", nr, nc)
    yield ("grid", 30, 3)
    yield ("grid", 3, 60)
    yield ("grid", 12, 12)
    for kind in SOURCES:
        yield ("read", kind)
    for pos in itertools.product(range(3), repeat=2):
        for size in itertools.product(range(1, 4), repeat=2):
            if pos[0] + size[0] <= 3 and pos[1] + size[1] <= 3:
                yield ("span", pos, size)


def addr_run(case):
    from ezodf.tableutils import address_to_index
    if case[0] in ("block", "block3", "long"):
        if case[0] == "long":
            names = [case[1] + "".join(x) for n in (2, 3)
                     for x in itertools.product(LETTERS, repeat=n)]
        elif case[0] == "block":
            names = [chr(65 + i) for i in range(26)] if case[1] == 26 else \
                [chr(65 + case[1]) + chr(65 + j) for j in range(26)]
        else:
            names = [chr(65 + case[1]) + x + y for x in map(chr, range(65, 91))
                     for y in map(chr, range(65, 91))]
        for name in names:
            v = 0
            for ch in name:
                v = v * 26 + ord(ch) - 64
            for row in (1, 10, 99) if len(name) < 3 else (8, 65536):
                same("index of %s%d" % (name, row), address_to_index("%s%d" % (name, row)),
                     (row - 1, v - 1))
                same("index of %s%d" % (name.lower(), row),
                     address_to_index("%s%d" % (name.lower(), row)), (row - 1, v - 1))
        return case
    if case[0] == "zero":
        for z in ("0", "00", "0000"):
            same("index of A%s%d" % (z, case[1] + 1), address_to_index("A%s%d" % (z, case[1] + 1)),
                 (case[1], 0))
        return case
    if case[0] == "row":
        for c in (0, 25, 26, 701):
            same("index of row %d" % (case[1] + 1), address_to_index(a1(case[1], c)),
                 (case[1], c))
        return case
    if case[0] == "span":
        t = Table("T", size=(3, 3))
        t.set_cell_span(case[1], case[2])
        cells = [[c for c in r] for r in t.xmlnode.iterchildren(q("table:table-row"))]
        all_ = list(itertools.product(range(3), repeat=2))
        for _ in range(2):
            same("positions", [p_ for p_, _ in t.itercells()], all_)
            need(all(c.xmlnode is cells[p_[0]][p_[1]] for p_, c in t.itercells()), "cells of itercells()")
            same("rows", [[c.xmlnode for c in r] for r in t.rows()], cells)
            same("columns", [[c.xmlnode for c in r] for r in t.columns()], [list(c) for c in zip(*cells)])
            need(all(t[p_].xmlnode is cells[p_[0]][p_[1]] and t[a1(*p_)].xmlnode is cells[p_[0]][p_[1]] for p_ in all_),
                 "cells at positions")
            t.remove_cell_span(case[1])
        return case
    if case[0] == "read":
        st = new_state(case[1])
        t, nr, nc = st.t, len(st.m.g), len(st.m.g[0])
    else:
        _, nr, nc = case
        t = Table("T", size=(nr, nc))
    if case[0] == "outside":
        def edge(n):
            return set(range(-2 * n - 2, -n + 2)) | set(range(n - 2, 2 * n + 2)) | {-1, 0, 1}
        before = tree(t.xmlnode)
        for r in edge(nr):
            for c in edge(nc):
                if -nr <= r < nr and -nc <= c < nc:
                    need(t[r, c].xmlnode is t[r % nr, c % nc].xmlnode, "cell (%d, %d)", r, c)
                    continue
                rejected("cell (%d, %d)" % (r, c), lambda: t[r, c])
                rejected("get_cell (%d, %d)" % (r, c), lambda: t.get_cell((r, c)))
                rejected("set_cell (%d, %d)" % (r, c), lambda: t.set_cell((r, c), Cell("x")))
                rejected("new cell (%d, %d)" % (r, c), lambda: t.__setitem__((r, c), Cell("x")))
                if r >= 0 and c >= 0:
                    rejected("cell " + a1(r, c), lambda: t[a1(r, c)])
                    rejected("new cell " + a1(r, c), lambda: t.__setitem__(a1(r, c), Cell("x")))
        same("the table", tree(t.xmlnode), before)
        return case
    seen = {}
    for r in range(nr):
        for c in range(nc):
            t[a1(r, c)].set_value(r * 1000 + c)
    for r in range(nr):
        for c in range(nc):
            same("value at (%d, %d)" % (r, c), t[r, c].value, float(r * 1000 + c))
            need(t[r, c].xmlnode is t[a1(r, c)].xmlnode
                 and t[r, c].xmlnode is t[a1(r, c).lower()].xmlnode
                 and t[r - nr, c - nc].xmlnode is t[r, c].xmlnode
                 and t[r, c - nc].xmlnode is t[r, c].xmlnode
                 and t[r - nr, c].xmlnode is t[r, c].xmlnode
                 and t.row(r)[c].xmlnode is t[r, c].xmlnode
                 and t.column(c)[r].xmlnode is t[r, c].xmlnode
                 and t.row(r - nr)[c].xmlnode is t[r, c].xmlnode
                 and t.column(c - nc)[r].xmlnode is t[r, c].xmlnode
                 and t.row_info(r - nr).xmlnode is t[r, c].xmlnode.getparent()
                 and t.row(a1(r, c))[c].xmlnode is t[r, c].xmlnode
                 and t.column(a1(r, c))[r].xmlnode is t[r, c].xmlnode,
                 "different cells at (%d, %d)", r, c)
            need(t.row_info(r).xmlnode is t[r, c].xmlnode.getparent(),
                 "row_info(%d) is not the row of the cells", r)
            node = t[r, c].xmlnode
            seen[id(node)] = node
    same("number of different cells", len(seen), nr * nc)
    cols = xml_parts(t.xmlnode, COL)
    for c in range(nc):
        need(t.column_info(c).xmlnode is cols[c] and t.column_info(a1(0, c)).xmlnode is cols[c]
             and t.column_info(c - nc).xmlnode is cols[c], "column_info(%d)", c)
    for r in (0, nr - 1):
        for c in (0, nc - 1):
            new = Cell("new")
            t[a1(r, c)] = new
            same("replaced cell", t[r, c].value, "new")
            t[r - nr, c - nc] = Cell("new2")
            same("replaced cell", t[a1(r, c)].value, "new2")
            t.set_cell((r, c), Cell(1.0))
            same("replaced cell", t[a1(r, c)].value, 1.0)
    return case


# ---------------------------------------------------------------- copies, clear, reset

COPY_SRC = ("new23", "plain", "header", "groups", "nested", "prelude", "repeated", "surplus", "deep")
MUT = [("val", 0, 0), ("cell", -1, -1), ("ir", 0, 1), ("dr", 0, 1), ("ic", 1, 1), ("dc", -1, 1),
       ("ar", 1), ("ac", 1), ("rs", 0), ("cs", 0), ("clear",), ("reset", 1, 1), ("rename",),
       ("inplace",)]


def copy_cases(tier):
    for kind in COPY_SRC:
        for pre in [()] + [(m,) for m in MUT]:
            for side in ("orig", "copy"):
                for m1 in MUT:
                    if tier == "quick" and pre and m1[0] in ("rename", "ar", "ac"):
                        continue
                    for m2 in ([None] if tier == "quick" else [None] + MUT):
                        yield (kind, pre, side, m1, m2)


def mutate(s, st, op):
    if op[0] == "rename":
        st.t.name = "renamed"
        st.m.name = "renamed"
    elif op[0] == "inplace":
        # change the existing cell in place
        cell = st.t[0, 0]
        if cell.value_type == "string" and not any(
                c.tag == q("table:table") for c in cell.xmlnode):
            cell.append_text("+")
            st.m.g[0][0] += "+"
    else:
        s.step(st, op)


def copy_run(case):
    kind, pre, side, m1, m2 = case
    s = Structure()
    st = new_state(kind)
    for o in pre:
        mutate(s, st, o)
    st.t.style_name = "ts"
    if side == "copy":
        st.t.protected = True
        for a, v in (("table:print-ranges", "S.A1:S.B2"), ("{http://www.w3.org/XML/1998/namespace}id", "i1"), ("table:display", "false"),
                     ("table:protection-key-digest-algorithm", "urn:x"), ("own", "attribute")):
            st.t.xmlnode.set(q(a) if a.startswith("table:") else a, v)
    before = tree(st.t.xmlnode)
    attrs = dict(st.t.xmlnode.attrib)
    cp = St()
    cp.m = copy.deepcopy(st.m)
    cp.t = st.t.copy()
    cp.m.name = "CopyOf" + st.m.name
    same("copied tree", tree(cp.t.xmlnode)[2:], before[2:])
    same("copied attributes", dict(cp.t.xmlnode.attrib),
         dict(attrs, **{q("table:name"): cp.m.name}))
    same("attributes of the original", dict(st.t.xmlnode.attrib), attrs)
    same("copied style", cp.t.style_name, "ts")
    same("tree of the original", tree(st.t.xmlnode), before)
    tgt = st if side == "orig" else cp
    for m in (m1, m2):
        if m is not None:
            mutate(s, tgt, m)
    observe(st.t, st.m, "original")
    observe(cp.t, cp.m, "copy")
    c2 = st.t.copy("N2")
    same("name of second copy", c2.name, "N2")
    same("attributes of the second copy", dict(c2.xmlnode.attrib),
         dict(st.t.xmlnode.attrib, **{q("table:name"): "N2"}))
    return case


# tables in tables, with any names

def nested_cases(tier):
    names = ("T", "N", "CopyOfT", "", None)
    for root in ("T", "CopyOfT", None):
        for inner in names:
            for second in names + ("absent",):
                for place in ("cell", "sub", "deep"):
                    for new in ("N", None, "T"):
                        yield (root, inner, second, place, new)


def nested_run(case):
    root, inner, second, place, new = case

    def table(name, content, tag="table:table"):
        return '<%s%s table:style-name="s" table:protected="true">%s</%s>' % (
            tag, "" if name is None else ' table:name="%s"' % name, content, tag)

    def row(*cells):
        return "<table:table-row>%s</table:table-row>" % "".join(
            '<table:table-cell>%s</table:table-cell>' % c for c in cells)
    kids = table(inner, row("<text:p>i</text:p>", ""))
    if place == "sub":
        kids = table(inner, row("<text:p>i</text:p>", "")).replace(
            "<table:table ", '<table:table table:is-sub-table="true" ', 1)
    elif place == "deep":
        kids = "<text:list><text:list-item>%s</text:list-item></text:list>" % table(
            "other", row(kids, "<text:p/>"))
    if second != "absent":
        kids += table(second, row("<text:p>2</text:p>"))
    t = Table(xmlnode=xml(table(root, row(kids, "<text:p>x</text:p>") + row("", ""))))
    before = tree(t.xmlnode)
    cp = t.copy() if new is None else t.copy(new)
    same("original", tree(t.xmlnode), before)
    same("size of the copy", (cp.nrows(), cp.ncols()), (2, 2))
    if new is not None:
        same("name of the copy", cp.name, new)
    same("content of the copy", [tree(e) for e in cp.xmlnode], [tree(e) for e in t.xmlnode])
    same("attributes of the copy", {k: v for k, v in cp.xmlnode.attrib.items() if k != q("table:name")},
         {k: v for k, v in t.xmlnode.attrib.items() if k != q("table:name")})
    cp[0, 0].clear()
    cp[0, 1].set_value("changed")
    same("original after a change of the copy", tree(t.xmlnode), before)
    return case


# every kind of change, with the effect it has to have on the changed table
def _effects():
    def span(t):
        if t[0, 0].span != (1, 1):
            raise Skip()
        t.set_cell_span((0, 0), (2, 2))
        return lambda: (t[0, 0].span, t[1, 1].covered), ((2, 2), True)

    def unspan(t):
        if t[0, 0].span == (1, 1):
            t.set_cell_span((0, 0), (1, 2))
        t.remove_cell_span((0, 0))
        return lambda: (t[0, 0].span, t[0, 1].covered), ((1, 1), False)

    def attr(get, name, value):
        def fn(t):
            setattr(get(t), name, value)
            return lambda: getattr(get(t), name), value
        return fn

    def call(get, name, *args):
        def fn(t):
            getattr(get(t), name)(*args)
            return lambda: None, None
        return fn

    def value(pos, *args):
        def fn(t):
            t[pos].set_value(*args)
            return lambda: (t[pos].value, t[pos].value_type), \
                (args[0], "string" if isinstance(args[0], str) else
                 args[1] if len(args) > 1 else "float")
        return fn

    def newcell(t):
        t[-1, 0] = Cell("other", style_name="st")
        return lambda: (t[-1, 0].value, t[-1, 0].style_name), ("other", "st")

    def empty(t):
        t[0, 0].clear()
        return lambda: (t[0, 0].value, len(t[0, 0])), (None, 0)

    def display(t):
        t[0, 1].set_value(5.0, currency="EUR")
        t[0, 1].display_form = "5 EUR"
        return lambda: (t[0, 1].plaintext(), t[0, 1].currency), ("5 EUR", "EUR")

    def size(name, *args):
        def fn(t):
            n = (t.nrows(), t.ncols())
            getattr(t, name)(*args)
            k = args[-1] if "delete" not in name else -args[-1]
            return lambda: (t.nrows(), t.ncols()), \
                (n[0] + k, n[1]) if "rows" in name else (n[0], n[1] + k)
        return fn

    def child(t):
        t.insert(0, GenericWrapper(etree.Element(q("table:title"))))
        return lambda: t[0].xmlnode.tag, q("table:title")

    table, row, col, cell = (lambda t: t), (lambda t: t.row_info(0)), \
        (lambda t: t.column_info(-1)), (lambda t: t[1, 0])
    return {
        "span": span, "unspan": unspan, "empty": empty, "display": display, "newcell": newcell,
        "value": value((0, 0), "v"), "number": value((1, 1), 1.5), "percent": value((1, 0), 0.5, "percentage"),
        "name": attr(table, "name", "nn"), "style": attr(table, "style_name", "ss"),
        "print": attr(table, "print_", True), "protect": attr(table, "protected", True),
        "rowstyle": attr(row, "style_name", "rr"), "rowvis": attr(row, "visibility", "filter"),
        "rowcells": attr(row, "default_cell_style_name", "dd"),
        "colstyle": attr(col, "style_name", "cc"), "colvis": attr(col, "visibility", "collapse"),
        "colcells": attr(col, "default_cell_style_name", "ee"),
        "cellstyle": attr(cell, "style_name", "xx"), "formula": attr(cell, "formula", "of:=2"),
        "cellprot": attr(cell, "protected", True),
        "valid": attr(cell, "content_validation_name", "vv"),
        "ar": size("append_rows", 2), "ac": size("append_columns", 1), "ir": size("insert_rows", 1, 1),
        "ic": size("insert_columns", -1, 2), "dr": size("delete_rows", -1, 1),
        "dc": size("delete_columns", 0, 1), "clear": call(table, "clear"),
        "reset": call(table, "reset", (2, 2)), "child": child,
        "attr": call(table, "set_attr", "x", "y"), "copy": call(table, "copy", "third"),
    }


EFFECTS = _effects()
SMALL = ("dr", "dc", "reset", "span")       # not with a span or too small a table behind them


def isolation_cases(tier):
    for kind in ("new23", "plain", "header", "groups", "nested", "prelude"):
        for pre in ((), ("span",), ("rowstyle", "colvis", "cellstyle"), ("look",)):
            for side in (0, 1, 2):
                for a in EFFECTS:
                    if pre == ("span",) and a in ("dr", "dc", "ir", "ic"):
                        continue        # see P08 for spans and structure
                    yield (kind, pre, side, a, None)
                    if tier != "quick" or (pre == () and kind in ("new23", "prelude")):
                        for b in EFFECTS:
                            if a not in SMALL and b not in SMALL:
                                yield (kind, pre, side, a, b)


def isolation_run(case):
    """Three tables: the original, its copy and the copy of the copy. Changing
    one of them has its effect there, the two others stay as they are."""
    kind, pre, side, a, b = case
    st = new_state(kind)
    t = st.t
    while t.nrows() < 3:
        t.append_rows()
    while t.ncols() < 3:
        t.append_columns()
    for r in range(t.nrows()):
        for c in range(t.ncols()):
            if t[r, c].value is None:
                t[r, c].set_value(a1(r, c))
    for e in pre:
        if e == "look":
            [(c.span, c.covered) for row in t.rows() for c in row]
        else:
            EFFECTS[e](t)
    tabs = [t, t.copy("one")]
    tabs.append(tabs[1].copy("two"))
    if pre == ("look",):
        for x in tabs:
            [(c.span, c.covered) for row in x.rows() for c in row]
            [x.column_info(i).style_name for i in range(x.ncols())]
    me = tabs[side]
    others = [x for x in tabs if x is not me]
    before = [tree(x.xmlnode) for x in others]
    for e in (a, b):
        if e is None:
            continue
        own = tree(me.xmlnode)
        effect = EFFECTS[e](me)
        if effect is not None:
            get, want = effect
            same("effect of " + e, get(), want)
            if want is not None:
                # ... also in the document
                again = Table(xmlnode=copy.deepcopy(me.xmlnode))
                same("size", (again.nrows(), again.ncols()), (me.nrows(), me.ncols()))
                same("cells", [[(c.value, c.span, c.covered) for c in r] for r in again.rows()],
                     [[(c.value, c.span, c.covered) for c in r] for r in me.rows()])
        for x, old in zip(others, before):
            same("table which was not changed by " + e, tree(x.xmlnode), old)
            same("its size", (x.nrows(), x.ncols()),
                 (len(xml_parts(x.xmlnode, ROW)), len(xml_parts(x.xmlnode, COL))))
    return case


def unnamed_cases(tier):
    for kind in ("plain", "header", "groups", "nested", "prelude", "repeated", "ragged", "surplus"):
        for new in (None, "x", "a'b"):
            for op in ("copy", "clear", "reset", "rows"):
                yield (kind, new, op)


def unnamed_run(case):
    """Tables without a name (in text documents, nested tables)."""
    kind, new, op = case
    st = new_state(kind)
    del st.t.xmlnode.attrib[q("table:name")]
    same("name", st.t.name, None)
    nr, nc = st.t.nrows(), st.t.ncols()
    before = tree(st.t.xmlnode)
    cp = st.t.copy() if new is None else st.t.copy(new)
    same("name of the copy", cp.name, {None: "CopyOf", "x": "x"}.get(new, "a b"))
    same("tree of the original", tree(st.t.xmlnode), before)
    if op == "clear":
        st.t.clear()
    elif op == "reset":
        st.t.reset((3, 1))
        nr, nc = 3, 1
    elif op == "rows":
        st.t.append_rows(1)
        st.t.delete_columns(0)
        nr, nc = nr + 1, nc - 1
    same("name", st.t.name, None)
    same("size", (st.t.nrows(), st.t.ncols()), (nr, nc))
    same("copied tree", tree(cp.xmlnode)[2:], before[2:])
    return case


def setcell_cases(tier):
    for kind in ("new23", "plain", "header"):
        for a in ((0, 0), (1, 1), (0, 1)):
            for b in ((0, 0), (1, 0), (-1, -1)):
                for other in (0, 1, 2):
                    yield (kind, a, b, other)


def setcell_run(case):
    """A cell taken from a table stays where it is; the target gets its content."""
    kind, a, b, other = case
    st = new_state(kind)
    s = Structure()
    for r in range(len(st.m.g)):
        for c in range(len(st.m.g[0])):
            s.step(st, ("val", r, c))
    dst = st
    if other == 1:
        dst = new_state("new23")
    elif other == 2:
        dst = new_state("plain")
    dst.t[b] = st.t[a]
    dst.m.g[b[0]][b[1]] = st.m.g[a[0]][a[1]]
    observe(st.t, st.m, "source")
    observe(dst.t, dst.m, "target")
    cell = Cell("fresh")
    dst.t[b] = cell
    dst.m.g[b[0]][b[1]] = "fresh"
    observe(dst.t, dst.m, "target")
    if cell.xmlnode.getparent() is not None:
        cell.set_value("edited")
        dst.m.g[b[0]][b[1]] = "edited"
        observe(dst.t, dst.m, "target")
    return case


ATTRS = ("style_name", "formula", "protected", "content_validation_name")


def setattr_cases(tier):
    for bits in range(16):
        for nbits in range(16):
            for pos in itertools.product(range(2), range(3)):
                if tier == "quick" and pos not in ((0, 1), (1, 2), (0, 0)):
                    continue
                for val in (None, "text", 1.5):
                    yield (bits, nbits, pos, val)


def setattr_run(case):
    """A new cell keeps exactly its own content and attributes, the other
    cells are not touched."""
    bits, nbits, pos, val = case

    def dress(cell, bits, tag):
        for i, a in enumerate(ATTRS):
            if bits >> i & 1:
                setattr(cell, a, True if a == "protected" else tag + a)
        return cell

    t = Table("T", size=(2, 3))
    for (r, c), cell in t.itercells():
        if r or c != 1:
            cell.set_value(a1(r, c))
        dress(cell, nbits, a1(r, c))
    t.row_info(0).style_name = "ro"
    before = [tree(c.xmlnode) for _, c in t.itercells()]
    rows = [dict(r.attrib) for r in xml_parts(t.xmlnode, ROW)]
    new = dress(Cell() if val is None else Cell(val), bits, "new")
    want = tree(new.xmlnode)
    t[pos if bits % 2 else a1(*pos)] = new
    before[pos[0] * 3 + pos[1]] = want
    got = [tree(c.xmlnode) for _, c in t.itercells()]
    for i in range(6):
        same("cell %d" % i, got[i], before[i])
    same("rows", [dict(r.attrib) for r in xml_parts(t.xmlnode, ROW)], rows)
    same("size", (t.nrows(), t.ncols()), (2, 3))
    return case


CHECKS = [
    Check("P07", "model_checking", [Cases("counts", count_cases, count_run),
                                     Cases("defaults", default_cases, default_run),
                                     handles.TABLES, handles.CROWD, sizes.GRID, Structure()],
          "all single operations with all indices and counts up to 6 (thorough: 11) on every table "
          "source; every sequence of the listed row/column/cell operations up to the depth, on every "
          "table source; a grid of labels is the model; states are distinct grids"),
    Check("P08", "exploration", [Cases("rejections", rej_cases, rej_run)],
          "every out-of-range index, non-positive count, deleting of everything, malformed "
          "address and invalid span, after each prefix; distinct (source, prefix, call)"),
    Check("P09", "exploration", [Cases("expansion", exp_cases, exp_run),
                                 Cases("content", exp_grid_cases, exp_grid_run),
                                 Cases("structures", exp_struct_cases, exp_struct_run), sizes.REPEATS],
          "cross product of repetition counts x positions x strategies x groups, header rows and "
          "nested tables; distinct grids"),
    Check("P10", "model_checking", [Spans(), Cases("loaded", loaded_span_cases, loaded_span_run),
                                   Cases("larger than the table", beyond_cases, beyond_run),
                                   sizes.SPANS, alias.kept_spans(Spans)],
          "breadth-first search over sets of spans; states are sets of rectangles"),
    Check("P12", "exploration", [Cases("addresses", addr_cases, addr_run),
                                 Cases("setcell", setcell_cases, setcell_run),
                                 Cases("new cells", setattr_cases, setattr_run)],
          "all column names of one to three letters, long names of five letters, all cells of grids, all combinations of "
          "attributes of a new cell and its neighbours"),
    Check("P27", "exploration", [Cases("copies", copy_cases, copy_run),
                                 Cases("isolation", isolation_cases, isolation_run),
                                 Cases("unnamed", unnamed_cases, unnamed_run),
                                 Cases("tables in tables", nested_cases, nested_run),
                                   domain.COPIES],
          "all pairs (state of the source, change of one side); distinct cases"),
]
