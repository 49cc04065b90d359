"""Text: white space encoding, inline composition, lists."""
import itertools

from lxml import etree

import ezodf
from ezodf import (Cell, Heading, Hyperlink, List, ListHeader, ListItem, Paragraph, Span, ezlist)
from ezodf.whitespaces import decode_whitespaces, encode_whitespaces
from ezodf.xmlns import wrap

from checks import alias, sizes
from lib import odf
from lib.mc import Cases, Check, Machine, Mismatch, Skip, need, rejected, same
from lib.odf import local, q, xml


class St(object):
    pass


# ---------------------------------------------------------------- independent reader

RAW = "\ue000"      # a plain space character of the XML text


def stream(node):
    """Characters of an element; plain white space is marked."""
    out = []

    def data(t):
        for ch in t or "":
            out.append(RAW if ch in " \t\r\n" else ch)

    def walk(n):
        data(n.text)
        for c in n:
            k = local(c)
            if k == "text:s":
                out.append(" " * int(c.get(q("text:c"), "1")))
            elif k == "text:tab":
                out.append("\t")
            elif k == "text:line-break":
                out.append("\n")
            elif k in ("text:span", "text:a"):
                walk(c)
            elif k not in ("text:soft-page-break", "text:bookmark"):
                raise Mismatch("unexpected element %s" % k)
            data(c.tail)
    walk(node)
    return "".join(out)


def format_text(node):
    """The text of a paragraph by the white space rules of the format: a plain
    white space character is dropped at the start, at the end and behind
    another one."""
    s = stream(node)
    out = []
    for i, ch in enumerate(s):
        if ch == RAW and (i == 0 or s[i - 1] == RAW):
            continue
        out.append(ch)
    while out and out[-1] == RAW:
        out.pop()
    return "".join(" " if ch == RAW else ch for ch in out)


def check_format(node, text, pieces=None):
    got = format_text(node)
    if got == text:
        return
    # recorded findings: exactly these spaces are lost and nothing else
    want = list(text)
    joints = set()
    if pieces:
        pos = 0
        for p in pieces[:-1]:
            pos += len(p)
            joints.add(pos)
    lost, keys = set(), []
    if text[:1] == " ":
        lost.add(0)
        keys.append("leading-space")
    if text[-1:] == " " and (len(text) < 2 or text[-2] != " " or len(text) - 1 in joints):
        lost.add(len(text) - 1)
        keys.append("trailing-space")
    if keys and got == "".join(c for i, c in enumerate(want) if i not in lost):
        raise Mismatch("format reader: got %r, expected %r" % (got, text), keys[0])
    if pieces:
        # the first space of a piece is dropped behind a plain space
        plain = stream(node)
        if any(0 < j < len(text) and text[j] == " " and text[j - 1] == " " for j in joints) and \
                got.replace(" ", "") == text.replace(" ", "") and \
                plain.replace(RAW, " ") == text:
            raise Mismatch("format reader: got %r, expected %r" % (got, text), "append-joint")
    raise Mismatch("format reader: got %r, expected %r" % (got, text))


# ---------------------------------------------------------------- P14

ALPHA = "a \t\n"


def words(alphabet, n):
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


MAKE = {
    "p": Paragraph, "h": Heading, "h3": lambda t: Heading(t, 3, "S"), "span": Span,
    "a": lambda t: Hyperlink("http://x", t), "li": ListItem, "lh": ListHeader,
    "cell": lambda t: Cell(t), "ez": lambda t: list(ezlist([t, "b"]).iteritems())[0],
    "p+": lambda t: _later(Paragraph(), t), "cell+": lambda t: _cell(t),
    "set": lambda t: _table(t),
}


def _later(p, t):
    p.append_text(t)
    return p


def _cell(t):
    c = Cell()
    c.set_value(t, "string")
    return c


def _table(t):
    s = ezodf.Sheet("S", size=(1, 1))
    s["A1"].set_value(t)
    return s["A1"]


class Strings(Cases):
    def __init__(self):
        self.name, self.serial = "strings", False

    def cases(self, tier):
        for w in words(ALPHA, 8 if tier == "quick" else 10):
            yield ("p", w)
        for k in MAKE:
            for w in words(ALPHA, 4 if tier == "quick" else 7):
                yield (k, w)
        special = "a \r\t\n\u0085\u00a0\u00ad\u2011\u00e4\u20ac&<>\"']\u2028\U0001f600\u3000"
        for k in ("p", "cell", "li"):
            for w in words(special, 2 if tier == "quick" else 3):
                yield (k, w)
        for n in list(range(9, 40)) + [99, 100, 255, 256, 1000]:
            for t in (" " * n, "a" + " " * n + "b", "x\n" + " " * n, " " * n + "\t" + " " * n,
                      "a " * n, "\t" * n):
                yield ("p", t)

    def run(self, case):
        kind, text = case
        tags = encode_whitespaces(text)
        same("decode(encode())", decode_whitespaces(tags), text)
        if kind == "cell" and not text:
            return None
        obj = MAKE[kind](text)
        same("plaintext()", obj.plaintext(), text)
        same("textlen", obj.textlen, len(text))
        again = wrap(etree.fromstring(etree.tostring(obj.xmlnode, encoding="UTF-8")))
        same("class after reading", type(again).__name__, type(obj).__name__)
        same("plaintext() after reading", again.plaintext(), text)
        same("textlen after reading", again.textlen, len(text))
        if "cell" in kind or kind == "set":
            same("value", obj.value, text)
            same("value after reading", again.value, text)
        node = obj.xmlnode
        if kind in ("li", "lh", "cell", "ez", "cell+", "set"):
            need(len(node) <= 1, "%d paragraphs", len(node))
            if not len(node):
                same("text without paragraph", text, "")
                return None
            node = node[0]
            same("paragraph element", node.tag, q("text:p"))
        if "\r" not in text:      # there is no element for carriage returns
            check_format(node, text)
        return etree.tostring(node)


START = {
    "empty": ("<text:p/>", ""),
    "text": ("<text:p>x</text:p>", "x"),
    "span": ("<text:p>x<text:span>y</text:span></text:p>", "xy"),
    "tail": ("<text:p><text:a>y</text:a>z</text:p>", "yz"),
    "s": ("<text:h>x <text:s/></text:h>", "x  "),
    "nested": ("<text:span>x<text:span>y<text:tab/></text:span></text:span>", "xy\t"),
    "brk": ("<text:a><text:line-break/></text:a>", "\n"),
    "page": ("<text:p>x<text:soft-page-break/></text:p>", "x"),
    "mark": ("<text:p>x<text:bookmark/></text:p>", "x"),
    "empty span": ("<text:h>x<text:span/></text:h>", "x"),
    "link": ("<text:span>x<text:a>y</text:a></text:span>", "xy"),
    "tabs": ("<text:p>x<text:tab/><text:tab/></text:p>", "x\t\t"),
}


def compositions(w, parts):
    n = len(w)
    for k in range(parts):
        for cut in itertools.combinations(range(1, n), k):
            cut = (0,) + cut + (n,)
            yield tuple(w[a:b] for a, b in zip(cut, cut[1:]))


class Splits(Cases):
    def __init__(self):
        self.name, self.serial = "appends", False

    def cases(self, tier):
        for w in words(ALPHA, 6 if tier == "quick" else 8):
            if len(w) > 1:
                for c in compositions(w, 3 if len(w) > 4 else 4):
                    if len(c) > 1:
                        yield ("empty", c)
        for s in START:
            for w in words(ALPHA, 3 if tier == "quick" else 5):
                if w:
                    for c in compositions(w, 3):
                        yield (s, c)

    def run(self, case):
        start, pieces = case
        src, text = START[start]
        obj = wrap(xml(src))
        for p in pieces:
            obj.append_text(p)
            text += p
            same("plaintext() after append_text(%r)" % p, obj.plaintext(), text)
            same("textlen after append_text(%r)" % p, obj.textlen, len(text))
        again = wrap(etree.fromstring(etree.tostring(obj.xmlnode, encoding="UTF-8")))
        same("plaintext() after reading", again.plaintext(), text)
        head = START[start][1]
        check_format(obj.xmlnode, text, ((head,) if head else ()) + pieces)
        return etree.tostring(obj.xmlnode)


# ---------------------------------------------------------------- P15

LEAF = ["text:s", "text:s3", "text:tab", "text:line-break", "text:soft-page-break",
        "text:bookmark", "comment", "pi"]
NODE = ["text:span", "text:a"]


def forests(n):
    """All ordered forests of n nodes as nested tuples (kind, children)."""
    if n == 0:
        yield ()
        return
    for k in range(n):          # size of the first tree's children
        for kids in forests(k):
            for rest in forests(n - 1 - k):
                for kind in (NODE + LEAF if not kids else NODE):
                    yield ((kind, kids),) + rest


LETTERS = "abcdefghijklmnopqrstuvwxyz"


class Trees(Cases):
    def __init__(self):
        self.name, self.serial = "inline trees", False

    def cases(self, tier):
        for n in range(0, 4 if tier == "quick" else 5):
            for f in forests(n):
                for root in ("text:p", "text:h", "text:span", "text:a"):
                    if n >= 3 and root != "text:p":
                        continue
                    for gaps in ("all", "none", "own", "tails"):
                        yield (root, f, gaps)

    def run(self, case):
        root, forest, gaps = case
        letters = iter(LETTERS * 3)
        text = []

        def gap(which):
            if gaps == "all" or gaps == which:
                ch = next(letters)
                text.append(ch)
                return ch
            return None

        def build(parent, kids):
            parent.text = gap("own")
            for kind, sub in kids:
                if kind == "text:s3":
                    e = etree.SubElement(parent, q("text:s"))
                    e.set(q("text:c"), "3")
                    text.append("   ")
                elif kind in ("comment", "pi"):
                    e = etree.Comment(" c ") if kind == "comment" else \
                        etree.ProcessingInstruction("pi", "data")
                    parent.append(e)
                else:
                    e = etree.SubElement(parent, q(kind))
                    text.append({"text:s": " ", "text:tab": "\t",
                                 "text:line-break": "\n"}.get(kind, ""))
                    if kind in NODE:
                        build(e, sub)
                e.tail = gap("tails")
        node = etree.Element(q(root))
        build(node, forest)
        node.tail = "outside"
        obj = wrap(node)
        want = "".join(text)
        same("plaintext()", obj.plaintext(), want)
        same("textlen", obj.textlen, len(want))
        kids = list(obj)
        same("number of children", len(obj), len(node))
        same("children", [k.xmlnode.tag for k in kids], [c.tag for c in node])
        obj.append_text("+\t+")
        same("plaintext() after append_text", obj.plaintext(), want + "+\t+")
        item = ListItem()
        item.append(Paragraph("one"))
        node.tail = None
        item.append(obj)
        same("plaintext() of the list item", item.plaintext(), "one\n" + want + "+\t+")
        same("textlen of the list item", item.textlen, len(want) + 7)
        return want


class Lists(Machine):
    name = "lists"

    SRC = {
        "header": '<text:list><text:list-header><text:p>H</text:p></text:list-header>'
                  '<text:list-item><text:p>i</text:p></text:list-item></text:list>',
        "items": '<text:list><text:list-item><text:p>i</text:p><text:p>j</text:p></text:list-item>'
                 '<text:list-item><text:h>k</text:h></text:list-item></text:list>',
        "last": '<text:list><text:list-item><text:p>i</text:p></text:list-item><text:list-header>'
                '<text:p>H</text:p></text:list-header><text:list-item><text:p>j</text:p>'
                '</text:list-item></text:list>',
        "nested": '<text:list><text:list-header><text:list><text:list-item><text:p>h1</text:p>'
                  '</text:list-item></text:list></text:list-header><text:list-item><text:p>i</text:p>'
                  '<text:list><text:list-header><text:p>sub</text:p></text:list-header>'
                  '<text:list-item><text:p>i1</text:p><text:list><text:list-item><text:p>i11</text:p>'
                  '</text:list-item></text:list></text:list-item><text:list-item/></text:list>'
                  '</text:list-item><text:list-item><text:list><text:list-item><text:p>j1</text:p>'
                  '</text:list-item></text:list><text:p>j</text:p></text:list-item></text:list>',
        "inhdr": '<text:list><text:list-header><text:list-item><text:p>H</text:p></text:list-item></text:list-header>'
                 '<text:list-item><text:p>i</text:p></text:list-item></text:list>',
        "nohdr": '<text:list><text:list-item><text:list><text:list-header><text:p>sub</text:p>'
                 '</text:list-header><text:list-item><text:p>i1</text:p></text:list-item></text:list>'
                 '</text:list-item></text:list>',
    }

    def configs(self, tier):
        n = 3 if tier == "quick" else 4
        return [("new", n, False), ("header", n, False), ("items", n, False), ("last", n, False), ("nested", n, False),
                ("nohdr", n, False), ("inhdr", 2, False), ("ez", n, False),
                ("ezh", n, False)]

    def ops(self, cfg):
        return [("hdr", "A"), ("hdr", ""), ("hdrlast",), ("hdrself",), ("hdrmove",), ("badhdr",), ("app", "x"),
                ("app", "  y\t"), ("iadd", "z"), ("ins", 1, "n"), ("ins", -1, "m"), ("ins", 0, "o"), ("del", 0),
                ("del", -1), ("append2", 0), ("attrs",), ("read",)]

    def init(self, cfg):
        st = St()
        # children of the list: [is header, texts of the paragraphs]
        st.kids, st.style, st.cont = [], None, False
        if cfg == "new":
            st.l = List()
        elif cfg in self.SRC:
            st.l = wrap(xml(self.SRC[cfg]))
            st.kids = {"header": [[True, ["H"]], [False, ["i"]]],
                       "items": [[False, ["i", "j"]], [False, ["k"]]],
                       # texts of nested lists are not part of the text of the items
                       "nested": [[True, []], [False, ["i"]], [False, ["j"]]],
                       "nohdr": [[False, []]],
                       "inhdr": [[True, ["H"]], [False, ["i"]]],
                       "last": [[False, ["i"]], [True, ["H"]], [False, ["j"]]]}[cfg]
        else:
            st.l = ezlist(("p", "", "q \n"), "Head" if cfg == "ezh" else "", "Sty")
            st.kids = [[True, ["Head"]]] if cfg == "ezh" else []
            st.kids += [[False, ["p"]], [False, []], [False, ["q \n"]]]
            st.style = "Sty"
        return st

    def header(self, st):
        """The header (at most one), it may stand at any place."""
        for k in st.kids:
            if k[0]:
                return k
        return None

    def sethdr(self, st, texts):
        h = self.header(st)
        if h is not None:
            st.kids.remove(h)
        st.kids.insert(0, [True, texts])

    def step(self, st, op):
        l = st.l
        k = op[0]
        if k == "hdr":
            l.header = ListHeader(op[1])
            self.sethdr(st, [op[1]] if op[1] else [])
        elif k == "hdrlast":
            if self.header(st) is not None:
                raise Skip()
            l.append(ListHeader("last"))
            st.kids.append([True, ["last"]])
        elif k == "hdrself":
            if self.header(st) is not None:
                l.header = l.header
                self.sethdr(st, self.header(st)[1])
        elif k == "hdrmove":
            other = ezlist(("1",), "moved")
            l.header = other.header
            self.sethdr(st, ["moved"])
            same("header of the other list", other.header, None)
            same("items of the other list", [i.plaintext() for i in other], ["1"])
        elif k == "badhdr":
            rejected("header = ListItem", lambda: setattr(l, "header", ListItem("x")), TypeError)
            rejected("header = Paragraph", lambda: setattr(l, "header", Paragraph("x")), TypeError)
        elif k == "app":
            l.append(ListItem(op[1]))
            st.kids.append([False, [op[1]]])
        elif k == "iadd":
            l += ListItem(op[1])
            st.kids.append([False, [op[1]]])
        elif k == "ins":
            n = len(st.kids)
            pos = op[1] + n if op[1] < 0 else op[1]
            if 0 <= pos <= n:
                l.insert(op[1], ListItem(op[2]))
                st.kids.insert(pos, [False, [op[2]]])
        elif k == "del":
            n = len(st.kids)
            if n == 0:
                rejected("del list[%d]" % op[1], lambda: l.__delitem__(op[1]), IndexError)
                return
            del l[op[1]]
            del st.kids[op[1]]
        elif k == "append2":
            items = [i for i in st.kids if not i[0]]
            if items:
                it = list(l.iteritems())[op[1]]
                it.append(Paragraph("second"))
                items[op[1]][1].append("second")
        elif k == "attrs":
            l.style_name = st.style = "New"
            l.continue_numbering = st.cont = True
        elif k == "read":
            st.l = wrap(etree.fromstring(etree.tostring(l.xmlnode)))

    def observe(self, st):
        l = st.l
        h = self.header(st)
        if h is None:
            same("header", l.header, None)
        else:
            if l.header.xmlnode.find(q("text:list")) is None:
                same("header text", l.header.plaintext(), "\n".join(h[1]))
            need(l.header.xmlnode.getparent() is l.xmlnode, "the header is elsewhere")
            same("header class", type(l.header).__name__, "ListHeader")
        items = list(l.iteritems())
        want = ["\n".join(t) for is_h, t in st.kids if not is_h]
        nodes = [e for e in l.xmlnode if e.tag == q("text:list-item")]
        need([i.xmlnode for i in items] == nodes, "iteritems() are not the items of this list: %r",
             [i.plaintext() for i in items])
        for i, w in zip(items, want):      # whether nested lists belong to the text is not specified
            if i.xmlnode.find(q("text:list")) is None:
                same("text of an item", i.plaintext(), w)
                same("textlen of an item", i.textlen, len(w))
        same("len()", len(l), len(st.kids))
        same("elements", [local(e) for e in l.xmlnode],
             ["text:list-header" if is_h else "text:list-item" for is_h, t in st.kids])
        same("paragraphs", [[wrap(p).plaintext() for p in e if local(p) != "text:list"]
                            for e in l.xmlnode], [t for _, t in st.kids])
        same("style_name", l.style_name, st.style)
        same("continue_numbering", l.continue_numbering, st.cont)

    def canon(self, st):
        return repr((st.kids, st.style, st.cont))


# ---------------------------------------------------------------- several paragraphs

PIECES = {
    "-": lambda: Paragraph(), "a": lambda: Paragraph("ab"), "h": lambda: Heading("H"),
    "s": lambda: Paragraph("  "), "t": lambda: Paragraph("\tx"), "n": lambda: Paragraph("\n"),
    "e": lambda: _inline(Span()), "l": lambda: _inline(Hyperlink("#", "l")), "H": lambda: Heading(""),
}
PIECE_TEXT = {"-": "", "a": "ab", "h": "H", "s": "  ", "t": "\tx", "n": "\n", "e": "", "l": "l", "H": ""}
HOLDERS = {"item": (ListItem, False), "header": (ListHeader, False), "cell": (Cell, True),
           "loaded cell": (lambda: Cell("x"), True)}


def _inline(child):
    p = Paragraph()
    p.append(child)
    return p


def piece_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for pieces in itertools.product(sorted(PIECES), repeat=n):
            for holder in sorted(HOLDERS):
                yield (holder, "".join(pieces))


def piece_run(case):
    """The texts of all paragraphs of an element, also of empty ones."""
    holder, pieces = case
    make, cell = HOLDERS[holder]
    w = make()
    want = [PIECE_TEXT[p] for p in pieces]
    if len(w):
        want.insert(0, "x")
    for p in pieces:
        w.append(PIECES[p]())
    for x in (w, wrap(etree.fromstring(etree.tostring(w.xmlnode)))):
        same("plain text", x.plaintext(), "\n".join(want))
        same("length", x.textlen, len("\n".join(want)))
        same("paragraphs", [c.plaintext() for c in x], want)
        same("lengths of the paragraphs", [c.textlen for c in x], [len(t) for t in want])
        if cell and x.value_type == "string":
            same("value", x.value, "\n".join(want))
    return case


CHECKS = [
    Check("P14", "exploration", [Strings(), Splits(), sizes.TEXTS, alias.TEXTS],
          "all strings over {letter, space, tab, line break} up to a length for every text element, "
          "special characters, long runs, and all splits into successive appends; distinct: stored "
          "XML forms",
          ["white space elements separate plain spaces (as office programs read them)"]),
    Check("P15", "model_checking", [Trees(), Lists(), sizes.DEEP,
                                   Cases("several paragraphs", piece_cases, piece_run),
                                   alias.Alias(Lists(), "l")],
          "all ordered inline trees up to a size x text placements; all list histories up to a depth"),
]
for c in (Strings, Splits, Trees):
    c.kind = "cases"
