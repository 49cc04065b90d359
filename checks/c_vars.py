"""Simple variables and user fields."""
import copy

from lxml import etree

import ezodf

from checks import alias, domain, sizes
from lib import odf
from lib.mc import Cases, Check, Machine, need, rejected, same
from lib.odf import local, q, tree, xml


class St(object):
    pass


VALS = [5, 2.5, 0, -1, True, False, "t", "", "x & <\u20ac>", 1e20, -2.5e-7, 2 ** 60, "5", "true",
        " a\n\tb "]
TYPED = {"float": "office:value", "boolean": "office:boolean-value",
         "string": "office:string-value", "date": "office:date-value",
         "time": "office:time-value", "percentage": "office:value"}
TYPED_ATTRS = {q(v) for v in TYPED.values()}
INITIAL = {None: "init", "string": "init", "float": 3.0, "boolean": True, "date": "2011-02-03",
           "time": "PT1H", "percentage": 3.0}
TEXT = {None: "init", "string": "init", "float": "3", "boolean": "true", "date": "2011-02-03",
        "time": "PT1H", "percentage": "3"}


SIMILAR = ["ab", "A", "a ", "b a"]      # names of further variables


def decl(kind, name, typ):
    t = ' office:value-type="%s"' % typ if typ else ""
    if kind == "uf":
        v = TYPED[typ or "string"]
        return '<text:user-field-decl text:name="%s"%s %s="%s"/>' % (name, t, v, TEXT[typ])
    return '<text:variable-decl text:name="%s"%s/>' % (name, t)


def field(kind, what, name, typ):
    t = ' office:value-type="%s"' % typ if typ else ""
    tag = {"uf": "user-field-", "sv": "variable-"}[kind] + what
    if what == "set":
        t += ' %s="%s"' % (TYPED[typ or "string"], TEXT[typ])
    return '<text:%s text:name="%s" style:data-style-name="N0"%s>%s</text:%s>' % (
        tag, name, t, TEXT[typ], tag)


def body(kind, mix, typ):
    """Variables a and b of `kind`, others with similar names, and one named a of
    the other kind."""
    other = "uf" if kind == "sv" else "sv"
    d = {"uf": "user-field", "sv": "variable"}
    decls = {kind: "".join(decl(kind, n, "float") for n in SIMILAR[:2]) + decl(kind, "a", typ) +
             decl(kind, "b", "float") + "".join(decl(kind, n, "float") for n in SIMILAR[2:]),
             other: decl(other, "a", "float")}
    out = "".join("<text:%s-decls>%s</text:%s-decls>" % (d[k], decls[k], d[k])
                  for k in ("sv", "uf"))
    fs = "".join("<text:span>%s</text:span> tail %s" % (field(kind, w, "a", typ), i)
                 for i, w in enumerate(mix))
    out += "<text:p>%s%s</text:p>" % ("lead", fs)
    out += "<text:p>%s and %s</text:p>" % (field(kind, "get", "b", "float"),
                                          field(other, "get", "a", "float"))
    out += "<text:p>%s</text:p>" % "".join(field(kind, "get", n, "float") for n in SIMILAR)
    out += "<text:p>a <text:page-number>1</text:page-number></text:p>"
    return out


class Vars(Machine):
    def __init__(self, kind):
        self.vk = kind
        self.name = {"sv": "simple-variables", "uf": "user-fields"}[kind]

    def configs(self, tier):
        n = 2 if tier == "quick" else 3
        mixes = [("set",), ("get",), ("input",), ("set", "get"), ("set", "set", "get", "input"),
                 ("get", "get"), ("input", "set", "get")]
        if self.vk == "uf":
            mixes = [(), ("get",), ("input",), ("get", "input"), ("get", "get", "input")]
        out = []
        for mix in mixes:
            for typ in INITIAL:
                out.append((("odt", mix, typ), n, False))
        out.append((("odt", mixes[-1], "float"), n + 1, False))
        out += [(("ods", mixes[-1], t), n, False) for t in ("float", "string")]
        out += [(("flat", mixes[-1], t), n, False) for t in ("float", "string")]
        return out

    def ops(self, cfg):
        return [("set", "a", v) for v in VALS] + \
            [("set", "b", v) for v in (7, False, "B", "")] + \
            [("attr", "a", v) for v in (8, True, "via")] + [("reopen",), ("bad",)] + \
            [("add", "get"), ("add", "input"), ("drop",)]

    def init(self, cfg):
        where, mix, typ = cfg
        st = St()
        st.mix = mix
        inner = body(self.vk, mix, typ)
        if where == "ods":
            i = inner.index("<text:p>")
            inner = inner[:i] + ('<table:table table:name="T"><table:table-column/>'
                                 '<table:table-row><table:table-cell>%s</table:table-cell>'
                                 '</table:table-row></table:table>' % inner[i:])
        if where == "flat":
            st.doc = odf.open_any(odf.flat("", "odt", inner))
        else:
            st.doc = ezodf.opendoc(odf.package(where, inner))
        st.val = {"a": INITIAL[typ], "b": 3.0}
        st.typ = {"a": typ or "string", "b": "float"}
        for n in SIMILAR:
            st.val[n], st.typ[n] = 3.0, "float"
        st.untouched = set(st.val)
        st.rest = self.rest(st)
        st.other = self.other_kind(st)
        return st

    def coll(self, st):
        b = st.doc.body
        return b.variables if self.vk == "sv" else b.userfields

    def mine(self, st, name):
        """Independent lookup: (declaration, fields) of a variable."""
        root = st.doc.body.xmlnode
        pre = "text:variable-" if self.vk == "sv" else "text:user-field-"
        d = [e for e in root.iter(q(pre + "decl")) if e.get(q("text:name")) == name]
        f = [e for w in ("set", "get", "input") for e in root.iter(q(pre + w))
             if e.get(q("text:name")) == name]
        return d, f

    def rest(self, st):
        """The document without what setting a variable may change."""
        root = copy.deepcopy(st.doc.body.xmlnode)
        pre = "text:variable-" if self.vk == "sv" else "text:user-field-"
        for w in ("decl", "set", "get", "input"):
            for e in root.iter(q(pre + w)):
                e.text = None
                for k in list(e.attrib):
                    if k in TYPED_ATTRS or k == q("office:value-type"):
                        del e.attrib[k]
        return tree(root)

    def changed(self, st):
        st.rest, st.other = self.rest(st), self.other_kind(st)

    def other_kind(self, st):
        b = st.doc.body
        return [tree(e) for e in b.xmlnode.iter(q("text:user-field-decl"), q("text:user-field-get"),
                                                q("text:variable-decl"), q("text:variable-get"))
                if e.get(q("text:name")) == "a" and
                (("user-field" in e.tag) != (self.vk == "uf"))]

    def assigned(self, st, name, v):
        st.untouched.discard(name)
        st.typ[name] = "boolean" if isinstance(v, bool) else \
            "float" if isinstance(v, (int, float)) else "string"
        st.val[name] = v if isinstance(v, (bool, str)) else float(v)

    def step(self, st, op):
        c = self.coll(st)
        k = op[0]
        if k == "set":
            c[op[1]] = op[2]
            self.assigned(st, op[1], op[2])
        elif k == "attr":
            c[op[1]].value = op[2]
            self.assigned(st, op[1], op[2])
        elif k == "reopen":
            st.doc = odf.open_any(st.doc.tobytes())
        elif k == "add":         # a new field which shows the present value
            typ, val = st.typ["a"], st.val["a"]
            text = TEXT[typ] if "a" in st.untouched else \
                str(val).lower() if typ == "boolean" else str(val)
            e = xml(field(self.vk, op[1], "a", "string"))
            e.text = text
            e.set(q("office:value-type"), typ)
            st.doc.body.append(ezodf.Paragraph("added")).xmlnode.append(e)
            st.mix += (op[1],)
            self.changed(st)
        elif k == "drop":        # the last field is removed together with its paragraph
            f = self.mine(st, "a")[1]
            if not f or (self.vk == "sv" and len(f) == 1):
                return
            e = [x for x in st.doc.body.xmlnode.iter() if x in f][-1]
            st.mix += ("-" + local(e),)
            e.tail = None
            e.getparent().remove(e)
            self.changed(st)
        elif k == "bad":
            for bad in ("nope", "B", "", " a", "aa"):
                need(bad not in c, "%r in variables", bad)
                rejected("variables[%r]" % bad, lambda: c[bad])
                rejected("variables[%r] = 1" % bad, lambda: c.__setitem__(bad, 1))

    def observe(self, st):
        c = self.coll(st)
        same("number of declarations", len(c), len(st.val))
        for name in sorted(st.val):
            need(name in c, "%s is missing", name)
            v = c[name]
            same("name", v.name, name)
            typ, val = st.typ[name], st.val[name]
            same("type of %s" % name, v.type, typ)
            d, f = self.mine(st, name)
            same("declarations of %s" % name, len(d), 1)
            fresh = name in st.untouched
            if (f or self.vk == "uf") and typ not in ("date", "time", "percentage"):
                got = v.value
                if got is None and val == "" and self.vk == "sv":
                    got = ""
                same("value of %s" % name, got, val)
            same("value-type of the declaration of " + name,
                 d[0].get(q("office:value-type"), "string"), typ)
            if self.vk == "uf":
                self.typed(d[0], typ, val, "declaration of " + name)
            for e in f:
                what = "%s of %s" % (local(e), name)
                same("value-type of the " + what, e.get(q("office:value-type"), "string"), typ)
                self.text(e.text or "", typ, val, what)
                if e.tag == q("text:variable-set"):
                    self.typed(e, typ, val, what)
            if not fresh:
                got = [i.value if i.value is not None else "" for i in v.instances]
                same("values of the fields of " + name, got, [val] * len(f))
        same("the rest of the document", self.rest(st), st.rest)
        same("the other kind of variable", self.other_kind(st), st.other)

    def text(self, got, typ, val, what):
        if typ in ("float", "percentage"):
            same("text of the " + what, float(got), val)
        elif typ == "boolean":
            same("text of the " + what, got, "true" if val else "false")
        else:
            same("text of the " + what, got, val)

    def typed(self, e, typ, val, what):
        same("typed value attributes of the " + what,
             {local_attr(k) for k in e.attrib if k in TYPED_ATTRS}, {TYPED[typ]})
        self.text(e.get(q(TYPED[typ])), typ, val, what)

    def canon(self, st):
        return (tuple(sorted(st.val.items())), repr(sorted(st.typ.items())), st.mix)


def local_attr(k):
    for v in TYPED.values():
        if q(v) == k:
            return v


# ---------------------------------------------------------------- display forms

SHOWN = {"float": (("1234.5", "1.234,50", 1234.5), ("0", "-", 0.0), ("-3", "(3)", -3.0),
                   ("2E3", "", 2000.0), ("7", "8", 7.0)),
         "boolean": (("true", "TRUE", True), ("true", "WAHR", True), ("false", "true", False),
                     ("false", "", False), ("true", "1", True)),
         "date": (("2011-02-03", "3. Feb", "2011-02-03"), ("2011-02-03T10:00:00", "", "2011-02-03T10:00:00")),
         "time": (("PT01H02M03S", "01:02", "PT01H02M03S"), ("PT0S", "", "PT0S")),
         "percentage": (("0.25", "25 %", 0.25),),
         "string": (("x", "x", "x"), ("a  b", "a  b", "a  b"), ("x", "X (shown)", "x"))}


def shown_cases(kind):
    def cases(tier):
        for typ in sorted(SHOWN):
            for raw, text, want in SHOWN[typ]:
                for mix in (("set",), ("set", "get"), ("get", "set"), ("input", "get", "set", "set")):
                    for style in (False, True):
                        for act in (None, "reopen", 5, True, "new", "same", "attr"):
                            yield (kind, typ, raw, text, want, mix, style, act)
    return cases


def shown_run(case):
    """Fields as office programs write them: the text is a display form."""
    kind, typ, raw, text, want, mix, style, act = case
    pre = {"uf": "user-field-", "sv": "variable-"}[kind]
    att = ' office:value-type="%s"' % typ
    val = ' %s="%s"' % (TYPED[typ], raw)
    inner = '<text:%sdecls><text:%sdecl text:name="a"%s/></text:%sdecls><text:p>' % (
        pre, pre, att + (val if kind == "uf" else ""), pre)
    mix = tuple("get" if kind == "uf" and w == "set" else w for w in mix)
    for n, w in enumerate(mix):
        inner += '<text:%s%s text:name="a"%s%s>%s</text:%s%s>' % (
            pre, w, ' style:data-style-name="N1"' if style else "",
            att + val if w == "set" else "", text + " !" * (n * style), pre, w)
    doc = ezodf.opendoc(odf.package("odt", inner + "</text:p>"))
    if act == "reopen":
        doc = ezodf.opendoc(doc.tobytes())
    coll = lambda: doc.body.variables if kind == "sv" else doc.body.userfields  # noqa
    before = tree(doc.body.xmlnode)
    same("type", coll()["a"].type, typ)
    same("value", coll()["a"].value, want)
    same("type of the value", type(coll()["a"].value).__name__, type(want).__name__)
    if kind == "sv":
        same("values of the setting fields",
             [i.value for i in coll()["a"].instances if local(i.xmlnode) == "text:variable-set"],
             [want] * mix.count("set"))
    same("the document after reading", tree(doc.body.xmlnode), before)
    if act in (None, "reopen"):
        return case
    new = want if act == "same" else 2.5 if act == "attr" else act
    if act == "attr":
        coll()["a"].value = new
    else:
        coll()["a"] = new
    for again in range(2):
        same("new value", coll()["a"].value, float(new) if type(new) is int else new)
        for i in coll()["a"].instances:
            same("new text of the field", i.xmlnode.text,
                 str(new).lower() if isinstance(new, bool) else str(new))
        doc = ezodf.opendoc(doc.tobytes())
    return case


# ---------------------------------------------------------------- comments

def comment_cases(kind):
    def cases(tier):
        for bits in range(32):
            for node in ("<!-- c -->", "<?p i?>"):
                for new in (None, 5, "t", True):
                    yield (kind, bits, node, new)
    return cases


def comment_run(case):
    """Comments and instructions between declarations and fields."""
    kind, bits, node, new = case
    pre, other = ("user-field", "variable")[::1 if kind == "uf" else -1]
    c = [node if bits >> i & 1 else "" for i in range(5)]
    val = ' office:value-type="float" office:value="3"'
    inner = ('<text:%s-decls>%s<text:%s-decl text:name="a"%s/>%s<text:%s-decl text:name="b"%s/></text:%s-decls>'
             '<text:%s-decls>%s</text:%s-decls>%s' % (pre, c[0], pre, val if kind == "uf" else val[:26], c[1], pre,
                                                      val if kind == "uf" else val[:26], pre, other, c[2], other, c[3]))
    for n in "ab":
        if kind == "sv":
            inner += '<text:p><text:variable-set text:name="%s"%s>3</text:variable-set>%s</text:p>' % (n, val, c[4])
        inner += '<text:p>%s<text:%s-get text:name="%s">3</text:%s-get></text:p>' % (c[4], pre, n, pre)
    doc = ezodf.opendoc(odf.package("odt", inner))
    coll = lambda: doc.body.variables if kind == "sv" else doc.body.userfields  # noqa
    nodes = len([n for n in doc.body.xmlnode.iter() if not isinstance(n.tag, str)])
    values = {"a": 3.0, "b": 3.0}
    for rnd in range(2):
        same("values", {n: coll()[n].value for n in "ab"}, values)
        need("c" not in coll() and None not in coll(), "unknown variable")
        if new is not None:
            coll()["b"] = new
            values["b"] = float(new) if type(new) is int else new
            same("values", {n: coll()[n].value for n in "ab"}, values)
            same("texts", [[i.xmlnode.text for i in coll()[n].instances] for n in "ab"],
                 [["3"] * (2 if kind == "sv" else 1),
                  [str(new).lower() if new is True else str(new)] * (2 if kind == "sv" else 1)])
        same("comments and instructions", len([n for n in doc.body.xmlnode.iter() if not isinstance(n.tag, str)]), nodes)
        doc = ezodf.opendoc(doc.tobytes())
    return case


# ---------------------------------------------------------------- places

FRAME = ('<text:p><draw:frame draw:name="f" svg:width="1cm"><draw:text-box>%s</draw:text-box>'
         '</draw:frame></text:p>')
PLACES = {
    "paragraph": "<text:p>x %s y</text:p>",
    "heading": '<text:h text:outline-level="2">%s</text:h>',
    "spans": '<text:p><text:span><text:span text:style-name="i">%s</text:span>t</text:span></text:p>',
    "link": '<text:p><text:a xlink:href="http://x/">%s</text:a></text:p>',
    "list": '<text:list><text:list-header><text:p>%s</text:p></text:list-header></text:list>',
    "item": '<text:list><text:list-item><text:list><text:list-item><text:p>%s</text:p></text:list-item>'
            '</text:list></text:list-item></text:list>',
    "numbered": '<text:numbered-paragraph><text:p>%s</text:p></text:numbered-paragraph>',
    "section": '<text:section text:name="s"><text:section text:name="t"><text:p>%s</text:p>'
               '</text:section></text:section>',
    "cell": '<table:table table:name="t"><table:table-row><table:table-cell><text:p>%s</text:p>'
            '</table:table-cell></table:table-row></table:table>',
    "covered": '<table:table table:name="t"><table:table-row><table:table-cell/>'
               '<table:covered-table-cell><text:p>%s</text:p></table:covered-table-cell>'
               '</table:table-row></table:table>',
    "frame": FRAME % "<text:p>%s</text:p>",
    "shape": '<text:p><draw:custom-shape><text:p>%s</text:p></draw:custom-shape></text:p>',
    "note": '<text:p>n<text:note text:note-class="footnote"><text:note-citation>1</text:note-citation>'
            '<text:note-body><text:p>%s</text:p></text:note-body></text:note></text:p>',
    "annotation": '<text:p><office:annotation><text:p>%s</text:p></office:annotation></text:p>',
    "index": '<text:table-of-content><text:index-body><text:index-title><text:p>%s</text:p>'
             '</text:index-title></text:index-body></text:table-of-content>',
    "ruby": '<text:p><text:ruby><text:ruby-base>%s</text:ruby-base></text:ruby></text:p>',
    "deleted": '<text:tracked-changes><text:changed-region><text:deletion><text:p>%s</text:p>'
               '</text:deletion></text:changed-region></text:tracked-changes>',
    "alien": '<a:b xmlns:a="urn:a"><text:p>%s</text:p></a:b>',
}
HEADERS = ("header", "footer", "header-left", "footer-left", "header-first")


def place_cases(kind):
    def cases(tier):
        names = sorted(PLACES)
        for ext in ("odt", "ods") if tier == "quick" else ("odt", "ods", "odp", "odg", "ott"):
            for flat in (False, True):
                for i, first in enumerate(names):
                    for second in [None] + names[i + 1:]:
                        for act in ("item", "value", "read"):
                            yield (kind, ext, flat, (first, second), None, act)
            for first in names[:3] + [None]:
                for h in HEADERS:
                    for style in ("master-styles", "automatic-styles", "styles"):
                        for act in ("item", "value", "read"):
                            yield (kind, ext, True, (first, None), (h, style), act)
    return cases


def place_run(case):
    """Fields anywhere in the XML document of the declarations get the value."""
    kind, ext, flat, places, header, act = case
    whats = ("get", "input") if kind == "uf" else ("set", "get")
    decls = "".join(decl(kind, n, "float") for n in ("a", "b"))
    grp = {"uf": "user-field", "sv": "variable"}[kind]
    inner = "<text:%s-decls>%s</text:%s-decls>" % (grp, decls, grp)
    n = 0
    for place in places:
        if place is not None:
            for w in whats:
                inner += PLACES[place] % (field(kind, w, "a", "float") + field(kind, w, "b", "float"))
                n += 1
    data = odf.package(ext, inner)
    if ext == "ods":
        inner += '<table:table table:name="S"/>'
    if flat:
        data = odf.flat("", ext, inner)
        if header is not None:
            h, style = header
            x = "".join("<text:p>%s</text:p>" % (
                field(kind, w, "a", "float") + field(kind, w, "b", "float")) for w in whats)
            n += len(whats)
            x = ('<office:%s><style:master-page style:name="m"><style:%s>%s</style:%s>'
                 '</style:master-page></office:%s>' % (style, h, x, h, style))
            doc = etree.fromstring(data)
            doc.insert(1, xml(x))
            data = etree.tostring(doc)
    elif ext == "ods":
        data = odf.package(ext, inner)
    doc = odf.open_any(data)
    coll = lambda: doc.body.variables if kind == "sv" else doc.body.userfields  # noqa

    def fields(name):
        return [e for e in doc.body.get_xmlroot().iter()
                if isinstance(e.tag, str) and e.get(q("text:name")) == name and
                local(e).rsplit("-", 1)[1] in ("set", "get", "input")]
    same("fields of a", len(fields("a")), n)
    path = doc.body.get_xmlroot().getroottree().getpath
    same("instances of a", sorted(path(i.xmlnode) for i in coll()["a"].instances),
         sorted(path(e) for e in fields("a")))
    if n:
        same("value of a", coll()["a"].value, 3.0)
    if act == "read":
        return case
    others = [tree(e) for e in fields("b")]
    if act == "item":
        coll()["a"] = 42
    else:
        coll()["a"].value = 42
    for again in range(2):
        same("texts of the fields", [e.text for e in fields("a")], ["42"] * n)
        same("fields of b", [tree(e) for e in fields("b")], others)
        if n:
            same("value of a", coll()["a"].value, 42.0)
        doc = odf.open_any(doc.tobytes() if not flat else etree.tostring(doc.xmlnode))
    return case


def PLACES_PART(kind):
    return Cases("places", place_cases(kind), place_run)


def SHOWN_PART(kind):
    return Cases("display forms", shown_cases(kind), shown_run)


def COMMENTS_PART(kind):
    return Cases("comments", comment_cases(kind), comment_run)


ALL = ("every sequence of assignments (numbers, booleans, texts), added and removed fields, reopenings and invalid accesses "
       "for every mix of fields and initial type; states are distinct assignments")
CHECKS = [
    Check("P19", "model_checking", [Vars("sv"), domain.VARS["sv"], sizes.VARS["sv"],
                                   alias.keeping(Vars, "coll", 2, 2, "sv"),
                                   SHOWN_PART("sv"), COMMENTS_PART("sv"), PLACES_PART("sv")], ALL),
    Check("P20", "model_checking", [Vars("uf"), domain.VARS["uf"], sizes.VARS["uf"],
                                   alias.keeping(Vars, "coll", 2, 2, "uf"),
                                   SHOWN_PART("uf"), COMMENTS_PART("uf"), PLACES_PART("uf")], ALL),
]
