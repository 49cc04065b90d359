"""Style containers as ordered dictionaries."""
from lxml import etree

import ezodf
from ezodf.xmlns import wrap

from checks import alias, domain, sizes
from lib import odf
from lib.mc import Check, Machine, need, rejected, same
from lib.odf import q, xml

NAME = q("style:name")
STAMP = "id"

KIND = {
    "style": '<style:style style:name="%s" style:family="paragraph"/>',
    "layout": '<style:page-layout style:name="%s"><style:page-layout-properties/>'
              '</style:page-layout>',
    "layout+": '<style:page-layout style:name="%s"><style:header-style>'
               '<style:header-footer-properties fo:min-height="1cm"/></style:header-style>'
               '<style:footer-style/></style:page-layout>',
    "font": '<style:font-face style:name="%s" svg:font-family="F"/>',
    "shown": '<style:style style:name="%s" style:display-name="b" style:family="text" '
             'style:parent-style-name="x" style:class="z"/>',
    "list": '<text:list-style style:name="%s"><text:list-level-style-bullet text:level="1"/>'
            '</text:list-style>',
    "master": '<style:master-page style:name="%s" style:page-layout-name="L"/>',
    # named elements inside of a style are not styles of the container
    "deep": '<style:master-page style:name="%s"><style:style style:name="x" style:family="text"/>'
            '<style:header><style:style style:name="b" style:family="text"/></style:header>'
            '<style:style style:name="nope" style:family="text"/></style:master-page>',
    "number": '<number:date-style style:name="%s"/>',
    # has no name: none of these is the name of the style
    "default": '<style:default-style style:family="%s" style:display-name="a" draw:name="b" text:name="nope" '
               'name="x" style:parent-style-name="c"/>',
}
CLASS = {"style": "Style", "shown": "Style", "layout": "PageLayout", "layout+": "PageLayout", "font": "FontFace",
         "list": "GenericWrapper", "master": "GenericWrapper", "number": "GenericWrapper", "deep": "GenericWrapper",
         "default": "DefaultStyle"}
STYLE_ATTRS = ["name", "display-name", "family", "parent-style-name", "next-style-name",
               "list-style-name", "master-page-name", "auto-update", "data-style-name", "class",
               "default-outline-level"]
ATTRS = {"Style": STYLE_ATTRS, "DefaultStyle": ["family"], "PageLayout": ["name", "page-usage"],
         "FontFace": []}
FIRST = {"styles": "style", "auto": "layout", "master": "master", "fonts": "font"}
WHERE = {"styles": "office:styles", "auto": "office:automatic-styles",
         "master": "office:master-styles", "fonts": "office:font-face-decls"}


class St(object):
    pass


class Styles(Machine):
    name = "style-containers"

    def configs(self, tier):
        n = 2 if tier == "quick" else 3
        out = []
        for where in ("styles", "auto", "master", "fonts", "cauto", "cfonts"):
            for given in ((), (("a", FIRST[where.lstrip("c")]), ("default", "default"), ("b", "list"),
                               ("c", "style"))):
                out.append((("pkg", where, given), n, False))
        out.append((("pkg", "styles", (("a", "style"), ("b", "style"))), n + 1, False))
        out.append((("pkg", "styles", (("a", "style"), ("a", "layout"), ("b", "number"))), n, False))
        out.append((("pkg", "auto", (("a", "layout+"), ("b", "layout"))), n, False))
        out.append((("pkg", "styles", (("d", "deep"), ("a", "style"))), n, False))
        out.append((("pkg", "master", (("d", "deep"), ("b", "master"))), n, False))
        out.append((("pkg", "styles", (("d", "shown"), ("b", "style"), ("a", "shown"))), n, False))
        out.append((("pkg", "cauto", (("d", "shown"), ("a", "layout"))), n, False))
        for where in ("styles", "auto", "master", "fonts"):
            out.append((("flat", where, (("a", "style"), ("b", "layout"))), n, False))
        out.append((("new", "styles", ()), n, False))
        return out

    def ops(self, cfg):
        k = FIRST[cfg[1].lstrip("c")]
        o = [("put", n, k, n) for n in "abd"]
        o += [("put", "a", "list", "a"), ("put", "b", "style", "b"), ("put", "a", "layout", "z"),
              ("put", "c", "layout", "c"), ("put", "n", "default", "n")]
        o += [("mv", "a", "b"), ("mv", "b", "b"), ("mv", "new", "a")]
        o += [("ren", "a", "x"), ("ren", "b", "a"), ("ren", "x", "b")]
        o += [("attr", "a"), ("attr", "b"), ("foreign",), ("bad",), ("reopen",), ("save",)]
        if cfg[1] == "styles":
            o += [("inject", "i", "style"), ("inject", "a", "layout"), ("inject", "l", "list")]
        return o

    def init(self, cfg):
        how, where, given = cfg
        st = St()
        st.how, st.where = how, where
        st.k = 0
        xmls = []
        st.items = []      # (name, kind, stamp, attribute dict)
        for name, kind in given:
            x = KIND[kind] % name
            i = x.index(" ")
            x = '%s id="g%d"%s' % (x[:i], st.k, x[i:])
            st.items.append(self.item(name, kind, "g%d" % st.k))
            st.k += 1
            xmls.append(x)
        inner = "".join(xmls)
        w = WHERE[where.lstrip("c")]
        if how == "new":
            st.doc = ezodf.newdoc("odt")
        elif how == "flat":
            data = odf.flat("").replace(b"<office:body>", (
                "<%s>%s</%s><office:body>" % (w, inner, w)).encode())
            st.doc = odf.open_any(data)
        else:
            data = odf.package("odt")
            name = "content.xml" if where[0] == "c" else "styles.xml"
            part = odf.part(data, name).decode()
            for empty in ("<%s></%s>" % (w, w), "<%s/>" % w):
                part = part.replace(empty, "<%s>%s</%s>" % (w, inner, w))
            assert inner in part
            st.doc = ezodf.opendoc(odf.replace_member(data, name, part.encode()))
        return st

    def item(self, name, kind, stamp):
        return {"name": None if kind == "default" else name, "kind": kind, "id": stamp,
                "attrs": {"family": "paragraph"} if kind == "style" else
                {"family": name, "display-name": "a", "parent-style-name": "c"} if kind == "default" else
                {"family": "text", "display-name": "b", "parent-style-name": "x", "class": "z"}
                if kind == "shown" else {}}

    def coll(self, st):
        d = st.doc
        if st.how == "flat":
            return {"styles": d.styles, "auto": d.automatic_styles, "master": d.master_styles,
                    "fonts": d.fonts}[st.where]
        if st.where[0] == "c":
            return {"cauto": d.content.automatic_styles, "cfonts": d.content.fonts}[st.where]
        s = d.styles
        return {"styles": s.styles, "auto": s.automatic_styles, "master": s.master_styles,
                "fonts": s.fonts}[st.where]

    def find(self, st, name):
        for i in st.items:
            if i["name"] == name:
                return i
        return None

    def step(self, st, op):
        c = self.coll(st)
        k = op[0]
        if k == "put":
            _, key, kind, name = op
            st.k += 1
            x = xml(KIND[kind] % name)
            x.set(STAMP, "n%d" % st.k)
            c[key] = wrap(x)
            new = self.item(name, kind, "n%d" % st.k)
            old = self.find(st, key)
            if old is None:
                st.items.append(new)
            else:
                st.items[st.items.index(old)] = new
        elif k == "mv":      # assign a style which is already in the container
            _, key, src = op
            s = self.find(st, src)
            if s is None:
                rejected("styles[%r]" % src, lambda: c[src], KeyError)
                return
            c[key] = c[src]
            old = self.find(st, key)
            if old is s:
                return
            st.items.remove(s)
            if old is None:
                st.items.append(s)
            else:
                st.items[st.items.index(old)] = s
        elif k == "ren":
            s = self.find(st, op[1])
            if s is None or CLASS[s["kind"]] not in ("Style", "PageLayout"):
                return
            c[op[1]]["name"] = op[2]
            s["name"] = op[2]
        elif k == "attr":
            s = self.find(st, op[1])
            if s is None:
                return
            obj = c[op[1]]
            for a in ATTRS.get(CLASS[s["kind"]], ()):
                if a != "name":
                    obj[a] = s["attrs"][a] = "v-" + a
            if CLASS[s["kind"]] != "GenericWrapper":
                for bad in ("nope", "style:name", ""):
                    rejected("style[%r]" % bad, lambda: obj[bad], KeyError)
                    rejected("style[%r] = x" % bad, lambda: obj.__setitem__(bad, "x"), KeyError)
        elif k == "foreign":     # a style of the other containers is not found in this one
            other = st.doc
            w = "fonts" if st.where != "fonts" else "styles"
            cc = getattr(other if st.how == "flat" else other.styles, w)
            x = xml(KIND["style"] % "only-there")
            cc["only-there"] = wrap(x)
            rejected("styles['only-there']", lambda: c["only-there"], KeyError)
        elif k == "bad":
            for name in ("", "A", "a ", "nope", "paragraph"):
                rejected("styles[%r]" % name, lambda: c[name], KeyError)
        elif k == "reopen":
            st.doc = odf.open_any(st.doc.tobytes())
        elif k == "save":
            import io
            b = io.BytesIO()
            st.doc.docname = b
            st.doc.save()
        elif k == "inject":
            st.k += 1
            x = KIND[op[2]] % op[1]
            i = x.index(" ")
            x = '%s id="n%d"%s' % (x[:i], st.k, x[i:])
            st.doc.inject_style(x)
            st.items.append(self.item(op[1], op[2], "n%d" % st.k))

    def observe(self, st):
        c = self.coll(st)
        for name in ("a", "b", "c", "d", "x", "z", "i", "l", "n"):
            s = self.find(st, name)
            if s is None:
                rejected("styles[%r]" % name, lambda: c[name], KeyError)
                continue
            obj = c[name]
            same("class of %r" % name, type(obj).__name__, CLASS[s["kind"]])
            same("styles[%r]" % name, obj.xmlnode.get(STAMP), s["id"])
            for a in ATTRS.get(type(obj).__name__, ()):
                same("styles[%r][%r]" % (name, a), obj[a],
                     name if a == "name" else s["attrs"].get(a))
            if type(obj).__name__ == "PageLayout":
                for part in ("header", "footer"):
                    p = getattr(obj, part).xmlnode
                    same("properties element of the " + part, p.tag,
                         q("style:header-footer-properties"))
                    same("parent of the %s properties" % part, p.getparent().tag,
                         q("style:%s-style" % part))
                    need(p.getparent().getparent() is obj.xmlnode, "%s is elsewhere", part)
                    same("number of %s properties" % part, len(p.getparent()), 1)
        data = st.doc.tobytes()
        if data[:2] == b"PK":
            data = odf.part(data, "content.xml" if st.where[0] == "c" else "styles.xml")
        found = etree.fromstring(data).findall(q(WHERE[st.where.lstrip("c")]))
        same("number of containers", len(found), 1)
        got = [(e.get(NAME), e.get(STAMP)) for e in found[0] if e.get(NAME) != "only-there"]
        same("stored styles", got, [(i["name"], i["id"]) for i in st.items])
        for e, i in zip([e for e in found[0] if e.get(NAME) != "only-there"], st.items):
            for a, v in i["attrs"].items():
                same("stored attribute " + a, e.get(q("style:" + a)), v)

    def canon(self, st):
        return tuple((i["name"], i["kind"], tuple(sorted(i["attrs"].items()))) for i in st.items)


CHECKS = [
    Check("P21", "model_checking", [Styles(), domain.STYLES, sizes.STYLES,
                                   alias.keeping(Styles, "coll", 2, 2)],
          "every sequence of lookup/assign/move/rename/attribute/inject/save/reopen operations for "
          "every style container; states are distinct container contents"),
]
