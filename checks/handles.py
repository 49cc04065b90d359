"""One table, reached in several ways: every object of it shows the same grid."""
import itertools

import ezodf
from ezodf import Cell, Table

from lib import odf
from lib.mc import Cases, need, rejected, same
from lib.odf import q

TABLE = ('<table:table table:name="%s"><table:table-column table:number-columns-repeated="2"/>'
         '<table:table-row><table:table-cell office:value-type="string"><text:p>%sa</text:p>'
         '</table:table-cell><table:table-cell table:style-name="s"/></table:table-row>'
         '<table:table-row table:number-rows-repeated="2"><table:table-cell '
         'table:number-columns-repeated="2"/></table:table-row></table:table>')

WAYS = {
    "index": lambda d, c: c[[s.name for s in c].index("B")],
    "negative": lambda d, c: c[[s.name for s in c].index("B") - len(c)],
    "name": lambda d, c: c["B"],
    "iter": lambda d, c: [s for s in c if s.name == "B"][0],
    "body": lambda d, c: [n for n in d.body if n.kind == "Table" and n.name == "B"][0],
    "child": lambda d, c: d.body.get_child(d.body.index(_find(d))),
    "findall": lambda d, c: [n for n in d.body.findall(q("table:table")) if n.name == "B"][0],
    "wrap": lambda d, c: ezodf.xmlns.wrap(_find(d).xmlnode),
    "shortcut": lambda d, c: d.body.sheets["B"],
}


def _find(d):
    return [n for n in d.body.findall(q("table:table")) if n.name == "B"][0]


def others(d):
    """Work on the container between getting two objects of the sheet."""
    c = d.sheets
    return {
        "none": lambda: None,
        "look": lambda: [n.kind for n in d.body],
        "move": lambda: c.append(c["B"]),
        "front": lambda: c.insert(0, c["B"]),
        "new": lambda: c.insert(0, Table("N", size=(2, 2))),
        "drop": lambda: c.__delitem__("A"),
        "replace": lambda: c.__setitem__("A", Table("R", size=(1, 1))),
        "bytes": lambda: d.tobytes(),
        "copy": lambda: c.append(c["B"].copy("C2")),
        "300": lambda: crowd(300),
        "2500": lambda: crowd(2500),
    }


def crowd(n):
    """Use many sheets of another document, and forget them."""
    o = ezodf.newdoc("ods")
    for i in range(n):
        o.sheets.append(Table("S%d" % i, size=(1, 1)))
    need([s.ncols() for s in o.sheets] == [1] * n, "the other document is wrong")


OTHERS = ("none", "look", "move", "front", "new", "drop", "replace", "bytes", "copy")
OPS = ("append_rows", "insert_rows", "delete_rows", "append_columns", "insert_columns",
       "delete_columns", "reset", "clear", "value", "cell", "span", "unspan", "info")


class Model(object):
    def __init__(self, source):
        self.rows = [["Ba", ""], ["", ""], ["", ""]] if source else [["", ""], ["", ""], ["", ""]]
        self.style = {}

    def apply(self, t, op, k):
        R, n = self.rows, len(self.rows[0])
        if op == "append_rows":
            t.append_rows(2)
            R += [[""] * n, [""] * n]
        elif op == "insert_rows":
            t.insert_rows(1, 1)
            R.insert(1, [""] * n)
        elif op == "delete_rows":
            t.delete_rows(0)
            del R[0]
        elif op == "append_columns":
            t.append_columns(1)
            for r in R:
                r.append("")
        elif op == "insert_columns":
            t.insert_columns(0, 2)
            for r in R:
                r[0:0] = ["", ""]
        elif op == "delete_columns":
            t.delete_columns(-1)
            for r in R:
                del r[-1]
        elif op == "reset":
            t.reset((2, 3))
            self.rows = [[""] * 3, [""] * 3]
        elif op == "clear":
            t.clear()
            self.rows = [[""] * n for r in R]
        elif op == "value":
            t[len(R) - 1, n - 1].set_value("v%d" % k)
            R[-1][-1] = "v%d" % k
        elif op == "cell":
            t[0, 0] = Cell("c%d" % k)
            R[0][0] = "c%d" % k
        elif op == "span":
            t.set_cell_span((0, 0), (2, 1))
            need(t[1, 0].covered, "not covered")
        elif op == "unspan":
            t.set_cell_span((0, 0), (2, 1))
            t.remove_cell_span((0, 0))
        elif op == "info":
            t.row_info(len(R) - 1).style_name = "r%d" % k
            t.column_info(n - 1).style_name = "c%d" % k
            t.style_name = "t%d" % k

    def check(self, what, t):
        R = self.rows
        same(what + ": size", (t.nrows(), t.ncols()), (len(R), len(R[0])))
        same(what + ": content", [[c.plaintext() for c in r] for r in t.rows()], R)
        same(what + ": last cell", t[-1, -1].plaintext(), R[-1][-1])
        same(what + ": columns", [c.plaintext() for c in t.column(0)], [r[0] for r in R])
        t.row_info(len(R) - 1), t.column_info(len(R[0]) - 1)
        rejected(what + ": row behind the last", lambda: t[len(R), 0])


def look(t):
    """Everything an object shows."""
    return (t.name, t.style_name, [[(c.value, c.span, c.covered, c.style_name) for c in r]
                                   for r in t.rows()],
            [t.row_info(i).style_name for i in range(t.nrows())],
            [t.column_info(i).style_name for i in range(t.ncols())])


def cases(tier):
    quick = tier == "quick"
    for src in ("new", "file"):
        for w1, w2 in itertools.product(sorted(WAYS) + ["kept"], sorted(WAYS)):
            if w1 == "kept" and src != "new":
                continue
            for mid in OTHERS:
                for op in OPS:
                    for op2 in (("append_rows",) if quick else OPS):
                        yield (src, w1, mid, w2, op, op2)


def crowd_cases(tier):
    for src in ("new", "file"):
        for w1, w2 in itertools.product(sorted(WAYS) + ["kept"], sorted(WAYS)):
            if w1 == "kept" and src != "new":
                continue
            for n in ("300",) if tier == "quick" else ("300", "2500"):
                for op, op2 in (("append_rows", "delete_columns"), ("reset", "insert_rows")):
                    yield (src, w1, n, w2, op, op2)


def run(case):
    src, w1, mid, w2, op, op2 = case
    if src == "file":
        d = ezodf.opendoc(odf.package("ods", "".join(TABLE % (n, n) for n in "AB")))
    else:
        d = ezodf.newdoc("ods")
        d.sheets.append(Table("A", size=(1, 1)))
        kept = d.sheets.append(Table("B", size=(3, 2)))
    c = d.sheets
    h1 = kept if w1 == "kept" else WAYS[w1](d, c)
    others(d)[mid]()
    h2 = WAYS[w2](d, c)
    m = Model(src == "file")
    handles = [("first object", h1), ("second object", h2)]
    for k, (t, o) in enumerate(((h1, op), (h2, op2), (h1, "value"))):
        if o in ("span", "unspan") and k:
            continue
        try:
            m.apply(t, o, k)
        except (ValueError, IndexError):
            if op not in ("span", "unspan", "delete_columns", "delete_rows"):
                raise
            return None         # refused: subject of other properties
        for name, h in handles + [("new object", c["B"])]:
            m.check("%s after %s" % (name, o), h)
            same(name, look(h), look(h1))
            need(h.xmlnode is h1.xmlnode, "%s is another table", name)
    again = ezodf.opendoc(d.tobytes()).sheets["B"]
    same("the saved sheet", look(again), look(h1))
    # renaming is seen by all objects
    h2.name = "X"
    same("names", (h1.name, h2.name, c["X"].name), ("X",) * 3)
    rejected("old name", lambda: c["B"])
    return case[:5]


def text_cases(tier):
    for w1, w2 in itertools.product(("body", "child", "findall", "wrap", "kept"),
                                    ("body", "child", "findall", "wrap")):
        for op, op2 in itertools.product(OPS, OPS):
            yield (w1, w2, op, op2)


def text_run(case):
    """The same for tables of a text document."""
    w1, w2, op, op2 = case
    d = ezodf.newdoc("odt")
    d.body.append(Table("A", size=(1, 1)))
    kept = d.body.append(Table("B", size=(3, 2)))
    h1 = kept if w1 == "kept" else WAYS[w1](d, None)
    h2 = WAYS[w2](d, None)
    m = Model(False)
    for k, (t, o) in enumerate(((h1, op), (h2, op2), (h1, "value"))):
        if o in ("span", "unspan") and k:
            continue
        try:
            m.apply(t, o, k)
        except (ValueError, IndexError):
            if op not in ("span", "unspan", "delete_columns", "delete_rows"):
                raise
            return None
        for name, h in (("first object", h1), ("second object", h2), ("new object", _find(d))):
            m.check("%s after %s" % (name, o), h)
            same(name, look(h), look(h1))
    return case


SHEETS = Cases("several objects of a sheet", cases, run)
TABLES = Cases("several objects of a table", text_cases, text_run)


CROWD = Cases("one of many tables", crowd_cases, run)
