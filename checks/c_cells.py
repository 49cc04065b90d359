"""Cell values, types, currencies and texts."""
import itertools

from lxml import etree

import ezodf
from ezodf import Cell, Heading, Paragraph, Section, Span

from checks import alias, domain
from lib.mc import Check, Machine, need, rejected, same
from lib.odf import q, xml

ATTRS = {"string": None, "float": q("office:value"), "percentage": q("office:value"),
         "currency": q("office:value"), "date": q("office:date-value"),
         "time": q("office:time-value"), "boolean": q("office:boolean-value")}
VALUE_ATTRS = {q("office:value"), q("office:date-value"), q("office:time-value"),
               q("office:boolean-value"), q("office:string-value")}

SOURCES = {
    "new": None,
    "float": '<table:table-cell table:style-name="s" table:formula="f" office:value-type="float" office:value="1.5"><text:p>1,50</text:p></table:table-cell>',
    "percentage": '<table:table-cell office:value-type="percentage" office:value="0.25"><text:p>25%</text:p></table:table-cell>',
    "currency": '<table:table-cell office:value-type="currency" office:currency="USD" office:value="7"><text:p>7 $</text:p></table:table-cell>',
    "date": '<table:table-cell office:value-type="date" office:date-value="2011-02-03"><text:p>Feb 3</text:p></table:table-cell>',
    "time": '<table:table-cell office:value-type="time" office:time-value="PT01H02M03S"><text:p>01:02</text:p></table:table-cell>',
    "boolean": '<table:table-cell table:protect="true" office:value-type="boolean" office:boolean-value="true"><text:p>TRUE</text:p></table:table-cell>',
    "string": '<table:table-cell table:style-name="s" office:value-type="string"><text:p>a<text:s text:c="2"/>b</text:p><text:h>h</text:h></table:table-cell>',
    "string2": '<table:table-cell table:content-validation-name="v" office:value-type="string" office:string-value="shown"><text:p>shown</text:p></table:table-cell>',
    "covered": '<table:covered-table-cell office:value-type="string"><text:p>c</text:p></table:covered-table-cell>',
    "note": '<table:table-cell office:value-type="float" office:value="1.5"><office:annotation><text:p>note</text:p></office:annotation><text:p>1,50</text:p><text:p>more</text:p></table:table-cell>',
    "notes": '<table:table-cell office:value-type="string"><office:annotation><text:p>note</text:p></office:annotation></table:table-cell>',
    "noted": '<table:table-cell office:value-type="date" office:date-value="2011-02-03"><office:annotation><text:p>note</text:p></office:annotation></table:table-cell>',
    "span": '<table:table-cell table:number-rows-spanned="2" table:number-columns-spanned="1" office:value-type="float" office:value="0"/>',
}
START = {
    "new": (None, None, None, []), "float": ("float", "1.5", None, ["1,50"]),
    "percentage": ("percentage", "0.25", None, ["25%"]),
    "currency": ("currency", "7", "USD", ["7 $"]),
    "date": ("date", "2011-02-03", None, ["Feb 3"]),
    "time": ("time", "PT01H02M03S", None, ["01:02"]),
    "boolean": ("boolean", "true", None, ["TRUE"]), "string": ("string", None, None, ["a  b", "h"]),
    "string2": ("string", None, None, ["shown"]), "covered": ("string", None, None, ["c"]),
    "note": ("float", "1.5", None, ["1,50", "more"]), "notes": ("string", None, None, []),
    "noted": ("date", "2011-02-03", None, []),
    "span": ("float", "0", None, []),
}
PROPS = {"style_name": q("table:style-name"), "formula": q("table:formula"),
         "content_validation_name": q("table:content-validation-name")}


class St(object):
    pass


class Cells_(Machine):
    name = "cell"

    def configs(self, tier):
        return [(k, 4 if k in ("new", "string") and tier != "quick" else 3, False)
                for k in SOURCES]

    def ops(self, cfg):
        o = [("set",) + v for v in (
            ("text", None, None), ("", None, None), (" a\t\n  b", None, None), (2.5, None, None),
            (0, None, None), (-3, None, None), (True, None, None), (False, None, None),
            ("x<&>\"'", "string", None), (5, "string", None), (0.5, "percentage", None),
            (9, "currency", None), (9.5, None, "EUR"), (0, "float", "GBP"),
            ("-2.50", "float", None), ("1e3", "currency", None),
            ("2012-02-29", "date", None), ("PT5H", "time", None), (0, "boolean", None),
            (1e300, None, None), (10 ** 15, None, None))]
        o += [("setp", "para", None), ("setp", "head", "float"), ("setp", "para", "date", "EUR"), ("para",),
              ("append", "+t"), ("append", "\n x"), ("display", "D"), ("display", ""),
              ("prop", "style_name"), ("prop", "formula"), ("prop", "content_validation_name"),
              ("protect", True), ("protect", False),
              ("bad", "none"), ("bad", "type"), ("bad", "section"), ("bad", "span"),
              ("bad", "emptynum"), ("bad", "word"), ("bad", "boolnum"), ("ser",)]
        return o

    def init(self, cfg):
        st = St()
        if SOURCES[cfg] is None:
            st.c = Cell()
        else:
            st.c = ezodf.xmlns.wrap(xml(SOURCES[cfg]))
        st.type, st.raw, st.cur, st.paras = START[cfg]
        st.paras = list(st.paras)
        x = st.c.xmlnode
        st.props = {k: x.get(a) for k, a in PROPS.items()}
        st.prot = x.get(q("table:protect")) == "true"
        st.cov = x.tag == q("table:covered-table-cell")
        st.spanned = (2, 1) if cfg == "span" else (1, 1)
        st.n = 0
        st.note, st.own = "note" in cfg, False
        return st

    def step(self, st, op):
        k = op[0]
        if k in ("set", "setp"):
            st.own = False
            st.note = None      # a new content: not specified for comments
        if k == "set":
            v, t, cur = op[1:]
            st.c.set_value(v, t, cur)
            if cur is not None:
                t = "currency"
            if t is None:
                t = "boolean" if isinstance(v, bool) else \
                    "float" if isinstance(v, (int, float)) else "string"
            st.type, st.cur, st.paras, st.raw = t, cur, [], None
            if t == "string":
                st.paras = [str(v)]
            elif t == "boolean":
                st.raw = "true" if v else "false"
            else:
                st.raw = str(v)
        elif k == "setp":
            st.n += 1
            txt = "w  %d" % st.n
            st.c.set_value(Paragraph(txt) if op[1] == "para" else Heading(txt), *op[2:])
            st.type, st.cur, st.raw, st.paras = "string", None, None, [txt]
        elif k == "para":
            st.c.append(Paragraph(" p"))
            st.own = q("office:string-value") in st.c.xmlnode.attrib
            st.paras.append(" p")
        elif k == "append":
            if st.type != "string":
                before = etree.tostring(st.c.xmlnode)
                rejected("append_text on %s" % st.type, lambda: st.c.append_text(op[1]))
                need(before == etree.tostring(st.c.xmlnode), "rejected append_text changed cell")
            else:
                st.c.append_text(op[1])
                st.own = False
                if st.paras:
                    st.paras[-1] += op[1]
                else:
                    st.paras = [op[1]]
        elif k == "display":
            def setter():
                st.c.display_form = op[1]
            if st.type in (None, "string"):
                before = etree.tostring(st.c.xmlnode)
                rejected("display_form on %s" % st.type, setter)
                need(before == etree.tostring(st.c.xmlnode), "rejected display_form changed cell")
            else:
                setter()
                if st.paras:
                    st.paras[0] = op[1]
                else:
                    st.paras = [op[1]]
        elif k == "prop":
            st.n += 1
            st.props[op[1]] = "of:=[.A1]<%d" % st.n
            setattr(st.c, op[1], st.props[op[1]])
        elif k == "protect":
            st.c.protected = st.prot = op[1]
        elif k == "bad":
            before = etree.tostring(st.c.xmlnode)
            call = {"none": lambda: st.c.set_value(None),
                    "type": lambda: st.c.set_value("x", "text"),
                    "section": lambda: st.c.set_value(Section()),
                    "span": lambda: st.c.set_value(Span("x")),
                    "word": lambda: st.c.set_value("1,5", "currency", "EUR"),
                    "boolnum": lambda: st.c.set_value(True, "float"),
                    "emptynum": lambda: st.c.set_value("", "float")}[op[1]]
            rejected("set_value(%s)" % op[1], call)
            need(before == etree.tostring(st.c.xmlnode), "rejected set_value(%s) changed the cell",
                 op[1])
        elif k == "ser":
            st.c = ezodf.xmlns.wrap(etree.fromstring(etree.tostring(st.c.xmlnode)))

    def observe(self, st):
        c, x = st.c, st.c.xmlnode
        text = "\n".join(st.paras)
        want = {None: None, "string": text, "date": st.raw, "time": st.raw}.get(st.type, 0)
        if st.type in ("float", "percentage", "currency"):
            want = float(st.raw)
        elif st.type == "boolean":
            want = st.raw == "true"
        same("value_type", c.value_type, st.type)
        same("value", c.value, want)
        same("currency", c.currency, st.cur)
        same("plaintext()", c.plaintext(), text)
        same("display_form", c.display_form, text)
        same("textlen", c.textlen, len(text))
        for k, v in st.props.items():
            same(k, getattr(c, k), v)
            same(k + " attribute", x.get(PROPS[k]), v)
        same("protected", c.protected, st.prot)
        same("covered", c.covered, st.cov)
        same("span", c.span, st.spanned)
        same("kind", c.kind, "Cell")
        a = ATTRS.get(st.type)
        left = {k for k in x.attrib if k in VALUE_ATTRS and k != a}
        # the attribute of a document that is still unchanged, or whose content
        # was extended by the user and not by the methods of the cell
        if st.type == "string" and (x.get(q("office:string-value")) == text or st.own):
            left.discard(q("office:string-value"))
        same("attributes of other value types", left, set())
        if a is not None:
            same("value attribute", x.get(a), st.raw)
        same("currency attribute", x.get(q("office:currency")), st.cur)
        notes = x.findall(q("office:annotation"))
        if st.note is not None:
            same("number of comments", len(notes), int(st.note))
        for ch in notes:
            same("text of the comment", "".join(ch.itertext()), "note")
        for ch in x:
            need(ch in notes or ch.tag in (q("text:p"), q("text:h")), "unexpected child %s", ch.tag)

    def canon(self, st):
        return (st.type, st.raw, st.cur, tuple(st.paras), tuple(sorted(
            (k, v) for k, v in st.props.items() if v)), st.prot)


class New(Machine):
    """Cells created with constructor arguments."""
    name = "constructor"

    def configs(self, tier):
        return [("c", 1, False)]

    def ops(self, cfg):
        vals = (None, "t", "", " a  b\n", 0, 1, -2.5, True, False, "0", "-2.5", "1e3", "1,5", "5 EUR",
                "true")
        types = (None, "string", "float", "percentage", "currency", "boolean", "date", "time")
        o = []
        for v, t, cur, sty in itertools.product(vals, types, (None, "EUR"), (None, "st")):
            if t in ("date", "time") and v is not None and not isinstance(v, str):
                continue
            o.append((v, t, cur, sty))
        o += [("2012-01-02", "date", None, None), ("PT1S", "time", None, "st")]
        o += [(v, t, None, sty) for v in (None, "t", 1, True) for sty in (None, "st")
              for t in ("", "Float", "text", "nonsense", "office:float", 1)]
        return o

    def init(self, cfg):
        return St()

    def step(self, st, op):
        v, t, cur, sty = op
        if t not in ATTRS and t is not None:
            rejected("Cell(%r, %r)" % (v, t), lambda: Cell(v, t, cur, sty))
            return
        if v is not None and not self.storable(v, "currency" if cur else t):
            rejected("Cell(%r, %r, %r)" % (v, t, cur), lambda: Cell(v, t, cur, sty))
            old = Cell(3, "float")
            before = etree.tostring(old.xmlnode)
            rejected("set_value(%r, %r, %r)" % (v, t, cur), lambda: old.set_value(v, t, cur))
            need(etree.tostring(old.xmlnode) == before, "refused value changed the cell")
            return
        c = Cell(v, t, cur, sty)
        same("style_name", c.style_name, sty)
        if v is None:
            same("value_type", c.value_type, t)
            same("currency", c.currency, None)
            return
        if cur:
            t = "currency"
        if t is None:
            t = "boolean" if isinstance(v, bool) else \
                "float" if isinstance(v, (int, float)) else "string"
        same("value_type", c.value_type, t)
        same("currency", c.currency, cur)
        if t in ("float", "percentage", "currency"):
            want = float(v)
        elif t == "boolean":
            want = bool(v)
        else:
            want = str(v)
        same("value", c.value, want)
        st.c = (t, repr(want), cur, sty)

    @staticmethod
    def storable(v, t):
        """Is `v` a value of the type `t`?"""
        if t in ("float", "percentage", "currency"):
            try:
                return not isinstance(v, bool) and float(v) is not None
            except ValueError:
                return False
        return v != "" or t in (None, "string", "boolean")

    def canon(self, st):
        return getattr(st, "c", None)


CHECKS = [
    Check("P11", "model_checking", [Cells_(), New(), domain.CELLS, alias.Alias(Cells_(), "c")],
          "every sequence of value, text, display, property and invalid operations on cells of "
          "every origin; states are distinct cell records"),
]
