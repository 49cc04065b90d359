"""Sheets/pages as lists, body structure, generic child lists."""
import itertools

from lxml import etree

import ezodf
from ezodf import Paragraph, Table, Heading, Section
from ezodf.drawingpage import DrawingPage
from ezodf.base import GenericWrapper

from checks import alias, domain, handles, sizes
from lib import odf
from lib.mc import Cases, Check, Machine, need, rejected, same
from lib.odf import local, q, tree, xml


class St(object):
    pass


# ---------------------------------------------------------------- sheets and pages

PRE = {"ods": '<table:calculation-settings/><text:variable-decls><text:variable-decl text:name="v" '
              'office:value-type="float"/></text:variable-decls><table:content-validations/>'
              '<table:label-ranges/>',
       "odg": '<text:variable-decls/><text:sequence-decls/>', "odp": '<presentation:header-decl '
              'presentation:name="h">x</presentation:header-decl><presentation:date-time-decl/>'}
POST = {"ods": '<table:named-expressions/><table:database-ranges/><table:dde-links/>',
        "odg": '<table:named-expressions/>', "odp": '<presentation:settings/>'}
ITEM = {"ods": '<table:table table:name="%s"><table:table-column/><table:table-row>'
               '<table:table-cell/></table:table-row></table:table>',
        "odg": '<draw:page draw:name="%s"><draw:frame/></draw:page>',
        "odp": '<draw:page draw:name="%s"><draw:frame/></draw:page>'}


class Pages_(Machine):
    name = "sheets"

    def configs(self, tier):
        n = 3 if tier == "quick" else 4
        out = [(("ods", "deco", 2), n - 1, False), (("ods", "new", 0), n - 1, False),
               (("ods", "mixed", 3), n - 1, False), (("odg", "deco", 2), 2, False),
               (("odp", "new", 0), 2, False), (("odp", "deco", 3), 2, False),
               (("ods", "post", 0), 2, False), (("odp", "post", 0), 2, False),
               (("odg", "post", 0), 2, False), (("odp", "deco", 0), 2, False), (("ods", "pre", 0), 2, False),
               (("ods", "deco", 0), 2, False), (("ots", "new", 0), 2, False),
               (("otg", "new", 0), 2, False), (("otp", "new", 0), 2, False)]
        out += [(("ods", "dup", 3), 2, False), (("ods", "nested", 2), 2, False),
                (("odg", "mixed", 2), 2, False)]
        if tier == "quick":
            out += [(("ods", "deco", 2), 3, False)]
        return out

    def ops(self, cfg):
        o = [("app", "A"), ("app", "N"), ("iadd", "N"), ("app", "a"), ("app", " A"), ("ren", 0, "B ")]
        o += [("ins", i) for i in (0, 1, 2, -1, -2, 9, -9)]
        o += [("set", i) for i in (0, 1, -1, "A", "B")]
        o += [("del", i) for i in (0, 1, -1, "A", "B")]
        o += [("mvapp", 0), ("mvins", -1, 0), ("mvins", 0, 1), ("mvins", 0, 9), ("mvset", 0, 1),
              ("mvset", 0, -1), ("mvset", -1, 0), ("mvset", 0, 0),
              ("ren", 0, "A"), ("ren", -1, "Z"), ("look",), ("badkey",), ("badobj",), ("save",)]
        return o

    def init(self, cfg):
        ext, kind, n = cfg
        st = St()
        st.ext = {"ots": "ods", "otg": "odg", "otp": "odp"}.get(ext, ext)
        st.tag = q("table:table") if st.ext == "ods" else q("draw:page")
        st.names = [chr(65 + i) for i in range(n)]
        if kind == "dup":
            st.names = ["A", "B", "A"]
        items = [ITEM[st.ext] % n for n in st.names]
        if kind == "nested":
            items[0] = ('<table:table table:name="A"><table:table-column/><table:table-row>'
                        '<table:table-cell>%s</table:table-cell></table:table-row></table:table>'
                        % (ITEM["ods"] % "IN"))
        inner = "".join(items)
        if kind in ("deco", "pre"):
            inner = PRE[st.ext] + inner
        if kind in ("deco", "post"):
            inner = inner + POST[st.ext]
        if kind == "mixed":
            inner = PRE[st.ext] + "<text:soft-page-break/>".join(items) + POST[st.ext]
        st.kind = kind
        if kind == "new":
            st.doc = ezodf.newdoc(ext)
        else:
            st.doc = ezodf.opendoc(odf.package(ext, inner))
        st.c = st.doc.sheets if st.ext == "ods" else st.doc.pages
        st.body = st.doc.body.xmlnode
        st.other = [local(e) for e in st.body if e.tag != st.tag]
        st.k = 0
        # the identity of every member
        st.ids = list(range(n))
        for i, x in enumerate(e for e in st.body if e.tag == st.tag):
            x.set("id", str(i))
        return st

    def fresh(self, st, name):
        st.k += 1
        if name == "N":
            name = "N%d" % st.k
        s = Table(name, size=(1, 1)) if st.ext == "ods" else DrawingPage(name)
        s.xmlnode.set("id", "n%d" % st.k)
        return s, self.norm(st, name), "n%d" % st.k

    def norm(self, st, name):
        return name.strip() if st.ext == "ods" else name    # tables strip their names

    def find(self, st, key):
        if isinstance(key, int):
            n = len(st.names)
            return key + n if -n <= key < 0 else key if 0 <= key < n else None
        return st.names.index(key) if key in st.names else None

    def step(self, st, op):
        k = op[0]
        N = st.names
        if k in ("app", "iadd"):
            s, name, i = self.fresh(st, op[1])
            if k == "app":
                r = st.c.append(s)
                need(r is s, "append() has to return the new sheet/page")
            else:
                c = st.c
                c += s
            N.append(name)
            st.ids.append(i)
        elif k == "ins":
            s, name, i = self.fresh(st, "N")
            st.c.insert(op[1], s)
            N.insert(op[1], name)
            st.ids.insert(op[1], i)
        elif k == "set":
            s, name, i = self.fresh(st, "N")
            j = self.find(st, op[1])
            if j is None:
                self.refused(st, op, lambda: st.c.__setitem__(op[1], s))
            else:
                st.c[op[1]] = s
                N[j], st.ids[j] = name, i
        elif k == "del":
            j = self.find(st, op[1])
            if j is None:
                self.refused(st, op, lambda: st.c.__delitem__(op[1]))
            else:
                del st.c[op[1]]
                del N[j], st.ids[j]
        elif k == "mvapp":
            if N:
                st.c.append(st.c[op[1]])
                N.append(N.pop(op[1]))
                st.ids.append(st.ids.pop(op[1]))
        elif k == "mvins":
            if N:
                st.c.insert(op[2], st.c[op[1]])
                a, b = N.pop(op[1]), st.ids.pop(op[1])
                N.insert(op[2], a)
                st.ids.insert(op[2], b)
        elif k == "mvset":
            if len(N) > 1:
                st.c[op[1]] = st.c[op[2]]
                i, j = op[1] % len(N), op[2] % len(N)
                if i != j:
                    a, b = N[j], st.ids[j]
                    N[i], st.ids[i] = a, b
                    del N[j], st.ids[j]
        elif k == "ren":
            if N:
                st.c[op[1]].name = op[2]
                N[op[1]] = self.norm(st, op[2])
        elif k == "look":
            self.observe(st, deep=False)
        elif k == "badkey":
            n = len(N)
            for key in (n, -n - 1, n + 5, "missing", "", None, 1.5, "b", "B  ", "\tA", "AB"):
                if key in N:
                    continue
                s = self.fresh(st, "N")[0]
                self.refused(st, op, lambda: st.c[key])
                self.refused(st, op, lambda: st.c.__delitem__(key))
                self.refused(st, op, lambda: st.c.__setitem__(key, s))
            self.refused(st, op, lambda: st.c.index(self.fresh(st, "N")[0]))
        elif k == "badobj":
            for bad in (Paragraph("x"), None, "x", 1, Section("s"),
                        DrawingPage("p") if st.ext == "ods" else Table("t")):
                self.refused(st, op, lambda: st.c.append(bad))
                self.refused(st, op, lambda: st.c.insert(0, bad))
                if N:
                    self.refused(st, op, lambda: st.c.__setitem__(0, bad))
                    self.refused(st, op, lambda: st.c.__setitem__(N[0], bad))
        elif k == "save":
            self.observe(st, deep=False)
            st.doc = ezodf.opendoc(st.doc.tobytes())
            st.c = st.doc.sheets if st.ext == "ods" else st.doc.pages
            st.body = st.doc.body.xmlnode

    def refused(self, st, op, fn):
        before = etree.tostring(st.body)
        rejected(repr(op), fn, (ValueError, IndexError, KeyError, TypeError, AttributeError))
        need(before == etree.tostring(st.body), "rejected %r changed the document", op)

    def observe(self, st, deep=True):
        N, c = st.names, st.c
        n = len(N)
        same("len()", len(c), n)
        same("names()", list(c.names()), N)
        same("iteration", [s.name for s in c], N)
        ids = [str(i) for i in st.ids]
        same("identity", [s.xmlnode.get("id") for s in c], ids)
        for i in range(n):
            same("[%d]" % i, c[i].xmlnode.get("id"), ids[i])
            same("[%d]" % (i - n), c[i - n].xmlnode.get("id"), ids[i])
            same("[%r]" % N[i], c[N[i]].xmlnode.get("id"), ids[N.index(N[i])])
            same("index()", c.index(c[i]), i)
            same("name", c[i].name, N[i])
            same("kind", c[i].kind, "Table" if st.ext == "ods" else "DrawingPage")
        for bad in (n, -n - 1):
            rejected("[%d]" % bad, lambda: c[bad])
        for bad in ("nope", "A ", "a", "b", " A", "B ", ""):
            if bad not in N:
                rejected("[%r]" % bad, lambda: c[bad])
        kids = [e for e in st.body]
        same("other elements", [local(e) for e in kids if e.tag != st.tag], st.other)
        pos = [i for i, e in enumerate(kids) if e.tag == st.tag]
        same("order in the XML", [kids[i].get("id") for i in pos], ids)
        if st.kind != "mixed" and pos:
            pre = set(odf_pre)
            for i, e in enumerate(kids):
                if e.tag in pre:
                    need(i < pos[0], "%s is behind a sheet/page", local(e))
                elif e.tag != st.tag:
                    need(i > pos[-1], "%s is in front of a sheet/page", local(e))
        if deep:
            same("shortcut", st.doc.sheets if st.ext == "ods" else st.doc.pages, c)
            body = odf.app_body(st.doc.tobytes())
            same("saved order", [e.get("id") for e in body if e.tag == st.tag], ids)

    def canon(self, st):
        return tuple(st.names)


def move_cases(tier):
    for ext, kind in (("ods", "deco"), ("ods", "mixed"), ("ods", "new"), ("odp", "deco"), ("odp", "post"),
                      ("odg", "mixed"), ("odg", "deco"), ("ods", "nested")):
        for n in range(1, 5 if tier == "quick" else 7):
            if kind == "nested" and n < 2:
                continue
            for i in range(-n, n):
                ops = [("mvins", i, j) for j in range(-n - 2, n + 3)] + \
                      [("mvset", i, j) for j in range(-n, n)] + [("mvapp", i)]
                for op in ops:
                    for op2 in (("look",), ("ins", -1), ("mvins", -1, 0), ("save",)):
                        yield (ext, kind, n, op, op2)


def move_run(case):
    """Every sheet is moved to every place."""
    ext, kind, n, op, op2 = case
    m = Pages_()
    st = m.init((ext, kind, 0 if kind == "new" else n))
    if kind == "new":
        for _ in range(n):
            m.step(st, ("app", "N"))
    m.step(st, op)
    m.observe(st)
    m.step(st, op2)
    m.observe(st)
    return case


odf_pre = [q(t) for t in (
    "table:calculation-settings", "table:content-validations", "table:label-ranges",
    "text:variable-decls", "text:sequence-decls", "text:user-field-decls",
    "presentation:header-decl", "presentation:date-time-decl", "table:tracked-changes")]


# ---------------------------------------------------------------- body structure

BODY_DECLS = ["office:forms", "text:tracked-changes", "text:variable-decls",
              "text:sequence-decls", "text:user-field-decls", "text:dde-connection-decls",
              "text:alphabetical-index-auto-mark-file"]
BODY_CONTENT = ["text:p", "text:h", "table:table", "draw:frame", "text:list", "text:section"]
BODY_TAIL = ["table:named-expressions", "table:database-ranges", "table:data-pilot-tables",
             "table:consolidation", "table:dde-links"]
ADDED = ("text:variable-decls", "text:user-field-decls")


def body_cases(tier):
    tails = [c for n in range(len(BODY_TAIL) + 1)
             for c in itertools.combinations(BODY_TAIL, n)]
    decls = [c for n in range(len(BODY_DECLS) + 1)
             for c in itertools.combinations(BODY_DECLS, n)]
    for d in decls:
        for c in ((), ("text:p",), ("text:h", "text:p"), ("table:table", "text:p")):
            for t in ((), BODY_TAIL[:1], BODY_TAIL[-1:], BODY_TAIL):
                yield (d, c, tuple(t))
    for t in tails:
        for c in ((), ("text:p",)):
            for d in ((), ("office:forms",), tuple(BODY_DECLS)):
                yield (d, c, t)
    for t in (("table:dde-links",) * 2, ("table:named-expressions",) * 2):
        yield ((), ("text:p",), t)


OPS16 = [("append", "text:p"), ("append", "table:table"), ("append", "text:section"),
         ("iadd", "text:h"), ("before", 0), ("before", -1), ("remove", 0), ("var",),
         ("reopen",), ("again", 0)]


def body_run(case):
    decls, content, tail = case
    items = ["<%s n='%d'/>" % (t, i) for i, t in enumerate(decls + content + tail)]
    data = odf.package("odt", "".join(items))
    outcomes = set()
    depth = 2 if len(decls) in (0, 1, 7) else 1
    for d in range(depth + 1):
        for seq in itertools.product(OPS16, repeat=d):
            doc = ezodf.opendoc(data)
            names = [(t, str(i)) for i, t in enumerate(decls + content + tail)]
            D, C, T = (names[:len(decls)], names[len(decls):len(decls) + len(content)],
                       names[len(decls) + len(content):])
            k = 0
            for op in seq:
                k += 1
                body = doc.body
                if op[0] in ("append", "iadd"):
                    w = ezodf.xmlns.wrap(etree.Element(q(op[1]), n="new%d" % k))
                    if op[0] == "append":
                        r = body.append(w)
                        need(r is w, "append() has to return its argument")
                    else:
                        body += w
                    C = C + [(op[1], "new%d" % k)]
                elif op[0] == "before":
                    if C:
                        tgt = [w for w in body if w.xmlnode.get("n") == C[op[1]][1]][0]
                        w = Paragraph("x")
                        w.xmlnode.set("n", "new%d" % k)
                        body.insert_before(tgt, w)
                        i = op[1] % len(C)
                        C = C[:i] + [("text:p", "new%d" % k)] + C[i:]
                elif op[0] == "remove":
                    if C:
                        tgt = [w for w in body if w.xmlnode.get("n") == C[0][1]][0]
                        body.remove(tgt)
                        C = C[1:]
                elif op[0] == "again":
                    # an element which is already there moves to the end
                    if C:
                        tgt = [w for w in body if w.xmlnode.get("n") == C[0][1]][0]
                        body.append(tgt)
                        C = C[1:] + C[:1]
                elif op[0] == "var":
                    need(doc.body.variables is not None and doc.body.userfields is not None,
                         "declarations missing")
                elif op[0] == "reopen":
                    doc = ezodf.opendoc(doc.tobytes())
            for what, body in (("body", doc.body.xmlnode), ("saved body",
                                                           odf.app_body(doc.tobytes()))):
                got = [(local(e), e.get("n")) for e in body]
                added = [g for g in got if g[1] is None]
                need(all(a[0] in ADDED for a in added) and len(set(added)) == len(added),
                     "%s: unexpected elements %r", what, added)
                same(what + " after %r" % (seq,), [g for g in got if g[1] is not None],
                     D + C + T)
                order = [BODY_DECLS.index(g[0]) for g in got if g[0] in BODY_DECLS]
                same(what + ": order of the declarations", order, sorted(order))
                firstc = min([i for i, g in enumerate(got) if g[0] not in BODY_DECLS] or [99])
                need(all(i < firstc for i, g in enumerate(got) if g[0] in BODY_DECLS),
                     "%s: declarations behind content: %r", what, got)
                for a in ADDED:
                    same(what + ": number of " + a, len([g for g in got if g[0] == a]), 1)
            outcomes.add(tuple(D + C + T))
    return (case, len(outcomes))


def otherbody_cases(tier):
    for ext in ("ods", "odp", "odg", "odc", "odi", "odm", "oth", "ott", "ots"):
        for d in itertools.product((0, 1), repeat=3):
            for c in (0, 1, 2):
                for t in (0, 1):
                    yield (ext, d, c, t)


def otherbody_run(case):
    """Declarations added by the library never move behind content."""
    ext, d, c, t = case
    base = {"ods": "table:table", "odp": "draw:page", "odg": "draw:page", "odc": "chart:chart",
            "odi": "draw:frame", "ots": "table:table"}.get(ext, "text:p")
    pre = [x for x, on in zip(("table:tracked-changes" if ext in ("ods", "ots")
                               else "office:forms", "text:variable-decls",
                               "text:sequence-decls"), d) if on]
    post = ["table:named-expressions"] * t
    items = "".join("<%s n='%d'/>" % (x, i) for i, x in enumerate(pre + [base] * c + post))
    doc = ezodf.opendoc(odf.package(ext, items))
    for rnd in range(2):
        got = [(local(e), e.get("n")) for e in doc.body.xmlnode]
        same("original elements", [g[1] for g in got if g[1]],
             [str(i) for i in range(len(pre) + c + t)])
        order = [BODY_DECLS.index(g[0]) for g in got if g[0] in BODY_DECLS]
        same("order of the declarations", order, sorted(order))
        cont = [i for i, g in enumerate(got) if g[0] == base or g[0] in BODY_TAIL]
        need(not cont or all(i < cont[0] for i, g in enumerate(got) if g[0] in BODY_DECLS),
             "declarations behind content: %r", got)
        for a in ADDED:
            same("number of " + a, len([g for g in got if g[0] == a]), 1)
        doc = ezodf.opendoc(doc.tobytes())
    return case


# ---------------------------------------------------------------- prelude/epilogue blocks

def block_cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(n + 1):
        for tags in itertools.product("abcx", repeat=k):
            yield tags


def block_run(tags):
    """Block positions against a direct definition."""
    from ezodf.nodeorganizer import EpilogueTagBlock, PreludeEpilogueOrganizer, PreludeTagBlock
    root = etree.Element("root")
    for i, t in enumerate(tags):
        etree.SubElement(root, t, n=str(i))

    def prefix(seq, order):
        n, pos = 0, 0
        for t in seq:
            if t in order[pos:]:
                pos = order.index(t)
                n += 1
            else:
                break
        return n
    pre = prefix(tags, "abc")
    b = PreludeTagBlock(root, "abc")
    same("length of the prelude %r" % (tags,), len(b), pre)
    same("end of the prelude", b.insert_position_after(), pre)
    post = prefix(tags[::-1], "cba")
    e = EpilogueTagBlock(root, "abc")
    same("length of the epilogue %r" % (tags,), len(e), post)
    same("begin of the epilogue", e.insert_position_before(), len(tags) - post)
    for t in "abc":
        blk = tags[:pre]
        same("tag_info", b.tag_info(t), (blk.index(t), blk.count(t)) if t in blk else (-1, 0))
        blk = tags[len(tags) - post:]
        same("epilogue tag_info", e.tag_info(t),
             (len(tags) - post + blk.index(t), blk.count(t)) if t in blk else (-1, 0))
    for bad in ("x", "", None):
        rejected("tag_info(%r)" % bad, lambda: b.tag_info(bad))
    # the organizer sorts prelude and epilogue kinds and keeps everything
    PreludeEpilogueOrganizer(prelude_tags=["a"], epilogue_tags=["b", "c"]).reorder(root)
    want = [(t, str(i)) for i, t in enumerate(tags)]
    key = {"a": 0, "x": 1, "b": 2, "c": 3}
    same("reorder(%r)" % (tags,), [(x.tag, x.get("n")) for x in root],
         sorted(want, key=lambda w: key[w[0]]))
    return tags


# ---------------------------------------------------------------- generic wrapper lists

class Wrapper(Machine):
    name = "children"

    def configs(self, tier):
        d = 3 if tier == "quick" else 4
        return [("generic", d, False), ("paragraph", 2, False), ("section", d - 1, False),
                ("list", 2, False)]

    def ops(self, cfg):
        o = [("append",), ("iadd",)]
        o += [("insert", i) for i in (0, 1, -1, 5, -2)]
        o += [("set", i) for i in (0, 1, -1, -2)]
        o += [("del", i) for i in (0, 1, -1, -2)]
        o += [("bef", 0), ("bef", -1), ("rem", 0), ("rem", -1), ("rep", 0), ("rep", -1),
              ("clear",), ("attr", "a"), ("attr", "b"), ("text", "t"), ("move", 0), ("bad",),
              ("tail",)]
        # children which are moved by the operation
        o += [("repown", 0, -1), ("repown", -1, 0), ("setown", 0, 1), ("setown", 1, 0),
              ("befown", 0, -1), ("befown", -1, 0), ("attr0", "b"), ("nest",)]
        return o

    def init(self, cfg):
        st = St()
        if cfg == "generic":
            st.w = GenericWrapper(etree.Element("root"))
        elif cfg == "paragraph":
            st.w = Paragraph()
        elif cfg == "section":
            st.w = Section("s")
        else:
            st.w = ezodf.List()
        st.m, st.k, st.attrs, st.text = [], 0, {}, None
        st.base = dict(st.w.xmlnode.attrib)
        st.tails = {}
        return st

    def fresh(self, st):
        st.k += 1
        w = [Paragraph, Heading, lambda: GenericWrapper(etree.Element("x"))][st.k % 3]()
        w.xmlnode.set("n", str(st.k))
        return w, str(st.k)

    def step(self, st, op):
        w, m, k = st.w, st.m, op[0]
        n = len(m)
        if k in ("append", "iadd"):
            c, i = self.fresh(st)
            if k == "append":
                need(w.append(c) is c, "append() has to return its argument")
            else:
                w += c
            m.append(i)
        elif k == "insert":
            if op[1] < -n:      # unlike lists, lxml appends
                return
            c, i = self.fresh(st)
            need(w.insert(op[1], c) is c, "insert() has to return its argument")
            m.insert(op[1], i)
        elif k in ("set", "del"):
            c, i = self.fresh(st)
            ok = -n <= op[1] < n
            if k == "set":
                if ok:
                    old = w[op[1]]
                    w[op[1]] = c
                    need(old.xmlnode.getparent() is None, "replaced child is still there")
                    st.tails.pop(m[op[1]], None)
                    m[op[1]] = i
                else:
                    self.refused(st, lambda: w.__setitem__(op[1], c))
            elif ok:
                del w[op[1]]
                del m[op[1]]
            else:
                self.refused(st, lambda: w.__delitem__(op[1]))
        elif k == "bef":
            if n:
                c, i = self.fresh(st)
                need(w.insert_before(w[op[1]], c) is c, "insert_before() return value")
                m.insert(op[1] % n, i)
        elif k == "rem":
            if n:
                w.remove(w[op[1]])
                del m[op[1]]
        elif k == "rep":
            if n:
                c, i = self.fresh(st)
                w.replace(w[op[1]], c)
                m[op[1]] = i
        elif k in ("repown", "setown", "befown"):
            i, j = [x % n if n else 0 for x in op[1:]]
            if n < 2 or i == j:
                return
            a, b = w[i], w[j]
            if k == "repown":
                w.replace(a, b)
            elif k == "setown":
                w[i] = b
            else:
                need(w.insert_before(a, b) is b, "insert_before() return value")
            old, moved = m[i], m[j]
            m.remove(moved)
            m.insert(m.index(old), moved)
            if k != "befown":
                m.remove(old)
                need(a.xmlnode.getparent() is None, "replaced child is still there")
        elif k == "attr0":
            # an attribute which is empty in the document
            w.xmlnode.set(op[1], "")
            st.attrs[op[1]] = ""
        elif k == "nest":
            # grandchildren are no children
            if n:
                for t in ("text:h", "text:p", "x"):
                    etree.SubElement(w[-1].xmlnode, q(t) if ":" in t else t, n="deep")
        elif k == "clear":
            w.clear()
            m[:] = []
            st.attrs, st.text, st.base = {}, None, {}
        elif k == "attr":
            st.k += 1
            st.attrs[op[1]] = "v%d" % st.k
            w.set_attr(op[1], st.attrs[op[1]])
            for bad in ("", None):
                self.refused(st, lambda: w.set_attr(op[1], bad))
        elif k == "text":
            st.text = "text %d" % st.k
            w.text = st.text
        elif k == "tail":
            if n:
                w[0].tail = w[0].tail      # no change
        elif k == "move":
            if n:
                c = w[op[1]]
                w.append(c)
                m.append(m.pop(op[1]))
        elif k == "bad":
            c = self.fresh(st)[0]
            self.refused(st, lambda: w.get_child(n))
            self.refused(st, lambda: w.get_child(-n - 1))
            self.refused(st, lambda: w.del_child(n))
            self.refused(st, lambda: w.set_child(n, c))
            self.refused(st, lambda: w.index(c))
            self.refused(st, lambda: w.remove(c))
            self.refused(st, lambda: w.insert_before(c, self.fresh(st)[0]))
            self.refused(st, lambda: w.replace(c, self.fresh(st)[0]))

    def refused(self, st, fn):
        before = etree.tostring(st.w.xmlnode)
        rejected("invalid call", fn, (ValueError, IndexError, KeyError, TypeError))
        need(before == etree.tostring(st.w.xmlnode), "rejected call changed the element")

    def observe(self, st):
        w, m = st.w, st.m
        n = len(m)
        same("len", len(w), n)
        same("children", [c.xmlnode.get("n") for c in w], m)
        kinds = {0: "Paragraph", 1: "Heading", 2: "GenericWrapper"}
        for i in range(n):
            same("[%d]" % i, w[i].xmlnode.get("n"), m[i])
            same("[%d]" % (i - n), w[i - n].xmlnode.get("n"), m[i])
            same("get_child", w.get_child(i).xmlnode.get("n"), m[i])
            same("index", w.index(w[i]), i)
            same("kind", w[i].kind, kinds[int(m[i]) % 3])
            need(w[i].get_xmlroot() is w.xmlnode, "root of a child")
        same("findall", [c.xmlnode.get("n") for c in w.findall(q("text:p"))],
             [i for i in m if int(i) % 3 == 0])
        first = w.find(q("text:h"))
        same("find of the own tag", w.find(w.xmlnode.tag), None)
        same("find", first.xmlnode.get("n") if first is not None else None,
             ([i for i in m if int(i) % 3 == 1] + [None])[0])
        for a in "abc":
            same("attribute", w.get_attr(a), st.attrs.get(a))
            same("attribute with default", w.get_attr(a, "dflt"), st.attrs.get(a, "dflt"))
        want = dict(st.base)
        want.update(st.attrs)
        same("attributes", dict(w.xmlnode.attrib), want)
        same("text", w.text, st.text)

    def canon(self, st):
        return (tuple(st.m), tuple(sorted(st.attrs)), st.text)


# ---------------------------------------------------------------- equal children

TWIN = {
    "paragraph": lambda: Paragraph("x"), "heading": lambda: Heading("x"),
    "empty": lambda: GenericWrapper(etree.Element("x")),
    "item": lambda: ezodf.ListItem("x"),
    "table": lambda: ezodf.Table("t", size=(1, 1)),
    "nested": lambda: ezodf.ezlist(["a", "b"]),
}
TWIN_PARENT = {
    "generic": lambda: GenericWrapper(etree.Element("root")),
    "section": lambda: Section("s"), "list": lambda: ezodf.List(),
    "body": lambda: ezodf.newdoc("odt").body,
}


def twin_cases(tier):
    for parent in sorted(TWIN_PARENT):
        for kind in sorted(TWIN):
            for n in (2, 3) if tier == "quick" else (2, 3, 4, 5):
                for i in range(n):
                    for op in ("index", "before", "remove", "replace", "set", "del", "move",
                               "insert", "get"):
                        for j in [None] if op not in ("replace", "before", "set") \
                                else [None] + [j for j in range(n) if j != i]:
                            yield (parent, kind, n, i, op, j)


def twin_run(case):
    """Children are distinguished by their identity, not by what they contain."""
    parent, kind, n, i, op, j = case
    w = TWIN_PARENT[parent]()
    base = len(w)
    kids = [w.append(TWIN[kind]()) for _ in range(n)]
    want = [k.xmlnode for k in kids]
    for pos, k in enumerate(kids):
        same("index of an equal child", w.index(k), base + pos)
    k = kids[i]
    other = TWIN[kind]() if j is None else kids[j]
    if op == "before":
        w.insert_before(k, other)
        if j is not None:
            want.remove(other.xmlnode)
        want.insert(want.index(k.xmlnode), other.xmlnode)
    elif op in ("replace", "set"):
        if op == "replace":
            w.replace(k, other)
        else:
            w[base + i] = other
        if j is not None:
            want.remove(other.xmlnode)
        want[want.index(k.xmlnode)] = other.xmlnode
    elif op in ("remove", "del"):
        if op == "remove":
            w.remove(k)
        else:
            del w[base + i]
        want.remove(k.xmlnode)
    elif op == "move":
        w.append(k)
        want.remove(k.xmlnode)
        want.append(k.xmlnode)
    elif op == "insert":
        w.insert(base + i, other)
        want.insert(i, other.xmlnode)
    elif op == "get":
        need(w.get_child(base + i).xmlnode is k.xmlnode, "child")
        need(w[base + i - len(w)].xmlnode is k.xmlnode, "child from the end")
    have = [c.xmlnode for c in w][base:]
    need(len(have) == len(want) and all(a is b for a, b in zip(have, want)),
         "children are %s, should be %s",
         [next((x for x, k in enumerate(kids) if k.xmlnode is c), "new") for c in have],
         [next((x for x, k in enumerate(kids) if k.xmlnode is c), "new") for c in want])
    if op in ("remove", "del", "replace", "set"):
        rejected("index of a removed child", lambda: w.index(k), ValueError)
    return case


# ---------------------------------------------------------------- children followed by text

MIX_OPS = [("replace", i, j) for i in range(3) for j in (None, 0, 1, 2) if i != j] + \
    [("set", i, j) for i in (0, 1, 2, -1) for j in (None, 0, 1, 2) if i % 3 != j] + \
    [(o, i, None) for o in ("remove", "del", "move", "first", "get", "tail", "text") for i in range(3)] + \
    [("before", i, j) for i in range(3) for j in (None, 0, 1, 2) if i != j] + \
    [("insert", i, None) for i in (0, 1, 2, 3, -1)] + [("iadd", 0, None)]
MIX_PARENT = {"p": lambda: Paragraph("<"), "span": lambda: ezodf.Span("<"), "h": lambda: Heading("<"),
              "a": lambda: ezodf.Hyperlink("#", "<"), "generic": lambda: GenericWrapper(etree.Element("root"))}


def mix_cases(tier):
    for parent in sorted(MIX_PARENT):
        for tails in ("abc", "-b-", "a--", "--c", "---"):
            for odd in ("", "c--", "-c-", "--c", "-i-", "c-c", "n--", "-n-", "--n"):
                for new in ("n", "-"):
                    for one in MIX_OPS:
                        yield (parent, tails, new, (one,), odd)
                        for two in MIX_OPS:
                            if tails == "abc" and new == "n" and not odd or tier != "quick":
                                yield (parent, tails, new, (one, two), odd)


def strange(kind, n):
    """A comment, an instruction or a text child with a comment and an unknown child."""
    if kind == "c":
        return GenericWrapper(etree.Comment("c%d" % n))
    if kind == "i":
        return GenericWrapper(etree.ProcessingInstruction("i%d" % n, "data"))
    if kind == "n":
        k = ezodf.Span("n%d" % n)
        k.xmlnode.append(etree.Comment("inner"))
        k.xmlnode.append(etree.Element("{urn:x}unknown"))
        return k
    return ezodf.Span("%d" % n)


def mix_run(case):
    """The text behind a child belongs to the child."""
    parent, tails, new, ops, odd = case
    w = MIX_PARENT[parent]()
    w.text = "<"
    serial = [0]

    def fresh(tail, kind="-"):
        serial[0] += 1
        k = strange(kind, serial[0])
        if tail != "-":
            k.tail = tail
        return k
    kids = [w.append(fresh(t, o)) for t, o in zip(tails, odd or "---")]
    want = list(kids)
    text = "<"
    tail = {id(k): None if t == "-" else t for k, t in zip(kids, tails)}
    for op, i, j in ops:
        if len(want) != 3:
            break
        k = want[i] if op != "insert" else None
        if op in ("replace", "set", "before"):
            other = want[j] if j is not None else fresh(new)
            if j is None:
                kids.append(other)
                tail[id(other)] = None if new == "-" else new
            {"replace": lambda: w.replace(k, other), "before": lambda: w.insert_before(k, other),
             "set": lambda: w.set_child(i, other)}[op]()
            if j is not None:
                want = [x for x in want if x is not other]
            pos = [x is k for x in want].index(True)
            want[pos:pos + (op != "before")] = [other]
        elif op == "insert":
            other = fresh(new)
            kids.append(other)
            tail[id(other)] = None if new == "-" else new
            w.insert(i, other)
            want.insert(i, other)
        elif op in ("remove", "del"):
            w.remove(k) if op == "remove" else w.del_child(i)
            want.remove(k)
        elif op == "move":
            w.append(k)
            want.append(want.pop(i))
        elif op == "first":
            w.insert(0, k)
            want.insert(0, want.pop(i))
        elif op == "get":
            same("child", w[i].plaintext(), k.plaintext())
        elif op == "tail":
            k.tail = tail[id(k)] = "T%d" % i
        elif op == "text":
            w.text = text = "x%d" % i
        elif op == "iadd":
            other = fresh(new)
            kids.append(other)
            tail[id(other)] = None if new == "-" else new
            w += other
            want.append(other)
        same("text", w.text, text)
        same("children", [(c.plaintext(), c.tail) for c in w],
             [(c.plaintext(), tail[id(c)]) for c in want])
        same("number of children", len(w), len(want))
        for i, c in enumerate(want):
            need(w[i].xmlnode is c.xmlnode and w[i - len(want)].xmlnode is c.xmlnode, "child %d", i)
            same("index", w.index(c), i)
        need(all(a.xmlnode is b.xmlnode for a, b in zip(w, want)), "iteration")
        same("text behind of all", [c.tail for c in kids], [tail[id(c)] for c in kids])
        if parent != "generic":
            same("plain text", w.plaintext(),
                 text + "".join(c.plaintext() + (tail[id(c)] or "") for c in want))
            same("length", w.textlen, len(w.plaintext()))
    return case


CHECKS = [
    Check("P13", "model_checking", [Pages_(), Cases("moves", move_cases, move_run), domain.NAMES, handles.SHEETS, sizes.PAGES],
          "every sequence of container operations, per document type and body shape; states are "
          "distinct sequences of names"),
    Check("P16", "model_checking", [Cases("body", body_cases, body_run),
                                    Cases("otherbody", otherbody_cases, otherbody_run),
                                    Cases("blocks", block_cases, block_run), sizes.BODY],
          "every subset of declaration/content/trailing elements x every operation sequence up to "
          "length two; all tag strings up to the length for the block positions"),
    Check("P25", "model_checking", [Wrapper(), Cases("equal children", twin_cases, twin_run),
                                   Cases("children followed by text", mix_cases, mix_run), domain.ATTRS,
                                   sizes.CHILDREN, alias.Alias(Wrapper(), "w")],
          "every sequence of child, attribute and text operations; states are child lists; every "
          "operation on every one of several children with equal content"),
]
