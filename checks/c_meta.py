"""Meta data: simple fields, keywords, user tags, statistics."""
import io
import itertools
from datetime import datetime

from lxml import etree

import ezodf

from checks import domain, sizes
from lib import odf
from lib.mc import Cases, Check, Machine, need, rejected, same
from lib.odf import local, q, tree


class St(object):
    pass


FIELD = {
    "generator": "meta:generator", "title": "dc:title", "description": "dc:description",
    "subject": "dc:subject", "initial-creator": "meta:initial-creator", "creator": "dc:creator",
    "creation-date": "meta:creation-date", "date": "dc:date",
    "editing-cycles": "meta:editing-cycles", "language": "dc:language",
}
KEYS = sorted(FIELD)
STATS = ["page", "table", "draw", "image", "object", "ole-object", "paragraph", "word",
         "character", "row", "frame", "sentence", "syllable", "non-whitespace-character", "cell"]

GIVEN = {
    "full": '<meta:generator>G/1</meta:generator><dc:title>T</dc:title><dc:description>D'
            '</dc:description><dc:subject>S</dc:subject><meta:initial-creator>I'
            '</meta:initial-creator><dc:creator>C</dc:creator><meta:creation-date>2001-02-03'
            '</meta:creation-date><dc:date>2002-03-04</dc:date><meta:editing-cycles>41'
            '</meta:editing-cycles><dc:language>de-AT</dc:language><meta:keyword>k1</meta:keyword>'
            '<meta:user-defined meta:name="u1" meta:value-type="float">1</meta:user-defined>'
            '<meta:editing-duration>PT1S</meta:editing-duration>'
            '<meta:document-statistic meta:page-count="3"/>',
    "bad": '<meta:editing-cycles>many</meta:editing-cycles><dc:title>T</dc:title>',
    "empty": '<dc:title/><meta:editing-cycles/>',
    "none": '',
}


def open_source(kind):
    """(document, inner meta xml given)"""
    how, given = kind
    if how == "new":
        return ezodf.newdoc(given), None
    if how == "flat":  # missing meta data is created empty
        return odf.open_any(odf.flat(GIVEN.get(given))), GIVEN.get(given, "")
    if given == "missing":
        return ezodf.opendoc(odf.package("ods", parts=("content.xml", "styles.xml"))), None
    data = odf.package("odt", meta=GIVEN[given])
    if how == "template":
        return ezodf.newdoc(template=odf.package("ott", meta=GIVEN[given])), GIVEN[given]
    return ezodf.opendoc(data), GIVEN[given]


def meta_node(doc):
    """The office:meta element as it would be saved, parsed independently."""
    return meta_of(doc.tobytes())


def meta_of(data):
    if data[:2] == b"PK":
        data = odf.part(data, "meta.xml")
    found = etree.fromstring(data).findall(q("office:meta"))
    same("office:meta elements", len(found), 1)
    return found[0]


def save(st):
    buf = io.BytesIO()
    st.doc.docname = buf
    st.doc.save()
    return buf.getvalue()


class Fields(Machine):
    name = "fields"

    def configs(self, tier):
        n = 2 if tier == "quick" else 3
        out = [(("new", "odt"), n, False), (("pkg", "full"), n, False)]
        out += [((h, g), 2, False) for h, g in (
            ("pkg", "bad"), ("pkg", "empty"), ("pkg", "none"), ("pkg", "missing"),
            ("flat", "full"), ("flat", None), ("flat", "empty"), ("flat", "bad"),
            ("template", "full"), ("new", "ods"), ("new", "odp"))]
        out += [((h, g), 4 if tier == "quick" else 6, "few") for h, g in (
            ("new", "odg"), ("pkg", "full"), ("pkg", "bad"), ("flat", "full"), ("flat", None),
            ("pkg", "missing"))]
        return [((k, "few" if d else "all"), n, False) for k, n, d in out]

    def ops(self, cfg):
        if cfg[1] == "few":
            return [("save",), ("reopen",), ("set", "title", "t2"), ("set", "editing-cycles", "9"),
                    ("clear",), ("inc",), ("other",)]
        o = [("set", k, "v1") for k in KEYS]
        o += [("set", "title", "A<&>\"' \u00e4\u20ac\n x "), ("set", "date", "2011-01-02T03:04:05"),
              ("set", "editing-cycles", "7"), ("set", "editing-cycles", "0"),
              ("set", "description", "")]
        return o + [("touch",), ("inc",), ("save",), ("reopen",), ("clear",), ("bad",), ("other",)]

    def init(self, cfg):
        st = St()
        st.doc, given = open_source(cfg[0])
        st.f = {}
        st.kw, st.ut, st.stat = [], {}, {}
        st.foreign = []
        if given is None:
            m = st.doc.meta
            for k in ("creation-date", "date"):
                d = datetime.fromisoformat(m[k])
                need(abs((datetime.now() - d).total_seconds()) < 3600, "%s is %s", k, d)
                st.f[k] = m[k]
            need("ezodf" in m["generator"], "generator is %r", m["generator"])
            st.f["generator"] = m["generator"]
        else:
            rev = {q(v): k for k, v in FIELD.items()}
            for e in etree.fromstring("<r %s>%s</r>" % (odf.DECL, given)):
                if e.tag in rev:
                    st.f[rev[e.tag]] = e.text or ""
                elif local(e) == "meta:editing-duration":
                    st.foreign.append(tree(e))
            if "k1" in given:
                st.kw, st.ut, st.stat = ["k1"], {"u1": "1"}, {"page": 3}
        return st

    def touched(self, st):
        m = st.doc.meta
        d = datetime.fromisoformat(m["date"])
        need(abs((datetime.now() - d).total_seconds()) < 3600 and d > st.t0 or d == st.t0,
             "date is %s", d)
        need("ezodf" in m["generator"], "generator is %r", m["generator"])
        st.f["date"], st.f["generator"] = m["date"], m["generator"]

    def cycles(self, st):
        try:
            st.f["editing-cycles"] = str(int(st.f["editing-cycles"]) + 1)
        except (KeyError, ValueError):
            st.f["editing-cycles"] = "1"

    def step(self, st, op):
        k = op[0]
        m = st.doc.meta
        if k == "set":
            m[op[1]] = op[2]
            st.f[op[1]] = op[2]
        elif k == "touch":
            st.t0 = datetime.now()
            m.touch()
            self.touched(st)
        elif k == "inc":
            m.inc_editing_cycles()
            self.cycles(st)
        elif k == "save":
            st.t0 = datetime.now()
            data = save(st)
            self.touched(st)
            self.cycles(st)
            # the written file already has the new stamps
            self.stored(meta_of(data), st)
            saved = odf.open_any(data)
            same("saved fields", {k: saved.meta[k] for k in st.f}, st.f)
        elif k == "reopen":
            # serialising is not saving: nothing is touched
            st.doc = odf.open_any(st.doc.tobytes())
        elif k == "clear":
            m.clear()
            st.f, st.kw, st.ut, st.stat, st.foreign = {}, [], {}, {}, []
        elif k == "bad":
            for key in ("bad", "", "Title", "dc:title", "keyword"):
                rejected("meta[%r]" % key, lambda: m[key], KeyError)
                rejected("meta[%r] = x" % key, lambda: m.__setitem__(key, "x"), KeyError)
        elif k == "other":
            m.keywords.add("kw")
            m.usertags["title"] = "user"
            m.count["page"] = 12
            if "kw" not in st.kw:
                st.kw.append("kw")
            st.ut["title"] = "user"
            st.stat["page"] = 12

    def observe(self, st):
        m = st.doc.meta
        for key in KEYS:
            if key in st.f:
                same("meta[%r]" % key, m[key], st.f[key])
            else:
                rejected("missing field meta[%r]" % key, lambda: m[key], KeyError)
        same("keywords", list(m.keywords), st.kw)
        same("user tags", dict(m.usertags), st.ut)
        same("statistics", dict(m.count), st.stat)
        self.stored(meta_node(st.doc), st)

    def stored(self, node, st):
        seen, foreign = {}, []
        rev = {q(v): k for k, v in FIELD.items()}
        for e in node:
            if e.tag in rev:
                need(rev[e.tag] not in seen, "field %s exists twice", rev[e.tag])
                need(not len(e), "field %s has children", rev[e.tag])
                seen[rev[e.tag]] = e.text or ""
            elif local(e) not in ("meta:keyword", "meta:user-defined", "meta:document-statistic"):
                foreign.append(tree(e))
        same("stored fields", seen, st.f)
        same("foreign meta elements", foreign, st.foreign)
        need(len(node.findall(q("meta:document-statistic"))) <= 1, "statistics element twice")

    def canon(self, st):
        return (tuple(sorted((k, v) for k, v in st.f.items()
                             if k not in ("date", "creation-date", "generator"))),
                tuple(sorted(st.f)), tuple(st.kw))


SUB = {
    "given": '<dc:title>T</dc:title><meta:keyword>a</meta:keyword>'
             '<meta:user-defined meta:name="x">1</meta:user-defined><meta:keyword>z</meta:keyword>'
             '<meta:user-defined meta:name="f" meta:value-type="float">2.5</meta:user-defined>'
             '<meta:document-statistic meta:page-count="3" meta:word-count="0"/>'
             '<meta:user-defined meta:name="">n</meta:user-defined><meta:user-defined meta:name="e"/><meta:keyword/>',
}


class Subs(Machine):
    """Keywords, user tags and statistics together."""
    name = "containers"

    def configs(self, tier):
        n = 3 if tier == "quick" else 4
        out = [(("all", "new"), n, False), (("all", "given"), n, False)]
        for part in ("kw", "ut", "st"):
            for src in ("new", "given", "flat"):
                out.append(((part, src), 6 if tier == "quick" else 12, True))
        return out

    def ops(self, cfg):
        kw = [("kw+", "a"), ("kw+", "b & \u00e9"), ("kw-", "a"), ("kw-", "q"), ("kwclr",), ("kw+", "A"),
              ("kw-", "A")]
        ut = [("ut=", "x", "1", None), ("ut=", "x", "2", "float"), ("ut=", "x", "3", "time"), ("ut=", "y", "<v>", "string"),
              ("ut=", "a", 5, None), ("ut=", "X", " 1\t", None), ("utdel", "x"), ("utdel", "y"), ("utupd",), ("utclr",)]
        stt = [("st=", "page", 4), ("st=", "word", 0), ("st=", "non-whitespace-character", 77),
               ("stupd",), ("stclr",)]
        extra = [("bad",), ("save",), ("reopen",), ("clear",), ("title",)]
        if cfg[0] == "kw":
            return kw + [("kw+", "a "), ("kw-", "a "), ("kw+", ""), ("kw-", ""), ("reopen",)]
        if cfg[0] == "ut":
            return ut + [("reopen",), ("ut=", "f", "4", "date"), ("ut=", "y", "", None)]
        if cfg[0] == "st":
            return [("st=", k, v) for k in ("page", "cell", "ole-object") for v in (0, 1, 9)] + \
                [("stupd",), ("stclr",), ("reopen",)]
        return kw + ut + stt + extra

    def init(self, cfg):
        st = St()
        st.kw, st.ut, st.stat = [], [], {}
        if cfg[1] == "new":
            st.doc = ezodf.newdoc("odt")
            st.title = None
        else:
            src = SUB["given"]
            st.doc = odf.open_any(odf.package("odt", meta=src) if cfg[1] == "given"
                                  else odf.flat(src))
            st.title = "T"
            st.kw = ["a", "z", ""]
            st.ut = [["x", "1", "string"], ["f", "2.5", "float"], ["", "n", "string"], ["e", "", "string"]]
            st.stat = {"page": 3, "word": 0}
        self.hold(st)
        return st

    def hold(self, st):
        """References a user keeps; everything is changed by them and has to be
        visible by new references, too."""
        m = st.doc.meta
        st.kwref, st.utref, st.stref = m.keywords, m.usertags, m.count

    def tag(self, st, name):
        for t in st.ut:
            if t[0] == name:
                return t
        return None

    def put(self, st, name, value, typ):
        t = self.tag(st, name)
        if t is None:
            t = [name, None, "string"]
            st.ut.append(t)
        t[1] = str(value)
        if typ is not None:
            t[2] = typ

    def step(self, st, op):
        m = st.doc.meta
        k = op[0]
        if k == "kw+":
            st.kwref.add(op[1])
            if op[1] not in st.kw:
                st.kw.append(op[1])
        elif k == "kw-":
            st.kwref.remove(op[1])
            if op[1] in st.kw:
                st.kw.remove(op[1])
        elif k == "kwclr":
            st.kwref.clear()
            st.kw = []
        elif k == "ut=":
            if op[3] is None:
                st.utref[op[1]] = op[2]
            else:
                st.utref.set(op[1], op[2], op[3])
            self.put(st, *op[1:])
        elif k == "utdel":
            t = self.tag(st, op[1])
            if t is None:
                rejected("del usertags[%r]" % op[1], lambda: st.utref.__delitem__(op[1]), KeyError)
            else:
                del st.utref[op[1]]
                st.ut.remove(t)
        elif k == "utupd":
            st.utref.update({"x": "u", "n\u00e9w": "0"})
            self.put(st, "x", "u", None)
            self.put(st, "n\u00e9w", "0", None)
        elif k == "utclr":
            st.utref.clear()
            st.ut = []
        elif k == "st=":
            st.stref[op[1]] = op[2]
            st.stat[op[1]] = op[2]
        elif k == "stupd":
            st.stref.update({"page": 8, "row": 1})
            st.stat.update({"page": 8, "row": 1})
        elif k == "stclr":
            st.stref.clear()
            st.stat = {}
        elif k == "bad":
            for key in ("pages", "", "page-count", "Page"):
                rejected("count[%r]" % key, lambda: st.stref[key], KeyError)
                rejected("count[%r] = 1" % key, lambda: st.stref.__setitem__(key, 1), KeyError)
            for key in ("nope", "X", "a "):
                if self.tag(st, key):
                    continue
                rejected("usertags[%r]" % key, lambda: st.utref[key], KeyError)
                rejected("typeof(%r)" % key, lambda: st.utref.typeof(key), KeyError)
                rejected("del usertags[%r]" % key, lambda: st.utref.__delitem__(key), KeyError)
        elif k == "save":
            save(st)
        elif k == "reopen":
            st.doc = odf.open_any(st.doc.tobytes())
            self.hold(st)
        elif k == "clear":
            m.clear()
            st.kw, st.ut, st.stat, st.title = [], [], {}, None
        elif k == "title":
            m["title"] = st.title = "new"

    def observe(self, st):
        m = st.doc.meta
        same("iter(keywords)", list(m.keywords), st.kw)
        for w in ("", "a ", "a", "b & \u00e9", "c", "q", "z", "A", "b"):
            same("%r in keywords" % w, w in m.keywords, w in st.kw)
        same("iter(usertags)", list(m.usertags), [(t[0], t[1] or "") for t in st.ut])
        names = {t[0]: t for t in st.ut}
        for n in ("x", "y", "a", "f", "", "n\u00e9w", "X", "e"):
            same("%r in usertags" % n, n in m.usertags, n in names)
            if n in names:
                same("usertags[%r]" % n, m.usertags[n], names[n][1] or "")
                same("typeof(%r)" % n, m.usertags.typeof(n), names[n][2])
            else:
                rejected("usertags[%r]" % n, lambda: m.usertags[n], KeyError)
        for n in STATS:
            same("count[%r]" % n, m.count[n], st.stat.get(n, 0))
        same("iter(count)", dict(m.count), st.stat)
        same("len of iter(count)", len(list(m.count)), len(st.stat))
        if st.title is None:
            rejected("meta['title']", lambda: m["title"], KeyError)
        else:
            same("title", m["title"], st.title)
        same("kept keywords", list(st.kwref), st.kw)
        same("kept user tags", list(st.utref), list(m.usertags))
        same("kept statistics", dict(st.stref), st.stat)
        node = meta_node(st.doc)
        same("stored keywords", [e.text or "" for e in node.findall(q("meta:keyword"))], st.kw)
        same("stored user tags",
             [[e.get(q("meta:name")), e.text or "", e.get(q("meta:value-type"), "string")]
              for e in node.findall(q("meta:user-defined"))], [[t[0], t[1] or "", t[2]] for t in st.ut])
        stats = node.findall(q("meta:document-statistic"))
        need(len(stats) <= 1, "statistics element exists %d times", len(stats))
        same("stored statistics",
             {k: v for e in stats for k, v in e.attrib.items()},
             {q("meta:%s-count" % k): str(v) for k, v in st.stat.items()})

    def canon(self, st):
        return (tuple(st.kw), tuple(tuple(t) for t in st.ut), tuple(sorted(st.stat.items())),
                st.title)


# ---------------------------------------------------------------- lists with equal entries

def twice_cases(tier):
    n = 4 if tier == "quick" else 6
    for k in range(n + 1):
        for words in itertools.product(("a", "b", "", "a "), repeat=k):
            for flat in (False, True):
                for op in (("clear",), ("remove", "a"), ("remove", ""), ("remove", "q"), ("add", "a"),
                           ("add", ""), ("add", "q")):
                    yield (list(words), flat, op)


def twice_run(case):
    """A document may list a keyword more than once."""
    words, flat, op = case
    src = "".join("<meta:keyword>%s</meta:keyword>" % w for w in words)
    src = '<dc:title>T</dc:title>%s<meta:user-defined meta:name="x">1</meta:user-defined>' % src
    doc = odf.open_any(odf.flat(src) if flat else odf.package("odt", meta=src))
    k = doc.meta.keywords
    want = set(words)
    if op[0] == "clear":
        k.clear()
        want = set()
    elif op[0] == "remove":
        k.remove(op[1])
        want.discard(op[1])
    else:
        k.add(op[1])
        if op[1] not in want:
            want.add(op[1])
            same("entries of the new keyword", list(k).count(op[1]), 1)
    for d in (doc, odf.open_any(doc.tobytes())):
        k = d.meta.keywords
        same("the keywords", set(k), want)
        for w in ("a", "b", "", "a ", "q"):
            same("%r in keywords" % w, w in k, w in want)
            need(list(k).count(w) <= max(words.count(w), 1), "%r was added again", w)
        same("the title", d.meta["title"], "T")
        same("the user tags", list(d.meta.usertags), [("x", "1")])
    return case


CHECKS = [
    Check("P17", "model_checking", [Fields(), domain.META, sizes.CYCLES],
          "every sequence of set/touch/count/save/reopen/clear/invalid operations for every "
          "source of the meta data; states are distinct field dictionaries"),
    Check("P18", "model_checking", [Subs(), domain.SUBS, sizes.META,
                                     Cases("equal keywords", twice_cases, twice_run)],
          "every sequence of keyword/user tag/statistic operations (all sequences for all "
          "containers together, breadth-first search per container)"),
]
