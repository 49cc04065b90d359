"""Reading: every sequence of read accesses gives the results a single access
of a newly opened document gives, and leaves the document as it is."""
import io
import itertools
import os
import subprocess
import sys
import zipfile

from lxml import etree

import ezodf
from ezodf.base import GenericWrapper

from lib import mc, odf
from lib.mc import Cases, Check, need, same, scratch
from lib.odf import q

TEXT = ('<text:variable-decls><text:variable-decl text:name="v" office:value-type="float"/>'
        '<text:variable-decl text:name="w" office:value-type="string"/></text:variable-decls>'
        '<text:sequence-decls/>'
        '<text:user-field-decls><text:user-field-decl text:name="u" office:value-type="string" '
        'office:string-value="U"/><text:user-field-decl text:name="b" office:value-type="boolean" '
        'office:boolean-value="true"/></text:user-field-decls>'
        '<text:h text:outline-level="2" text:start-value="4" text:restart-numbering="true" '
        'text:style-name="H">head<text:s text:c="3"/>x</text:h><!-- c -->'
        '<text:p text:style-name="P" text:id="i">a<text:span text:style-name="S">b<text:tab/>c</text:span>'
        ' d<text:line-break/><text:a xlink:href="http://x" office:name="n" '
        'office:target-frame-name="_top">link</text:a> e <text:variable-set text:name="v" '
        'office:value-type="float" office:value="1.5">1,5</text:variable-set>'
        '<text:variable-get text:name="v" office:value-type="float">1.5</text:variable-get>'
        '<text:variable-set text:name="w" office:value-type="string">W</text:variable-set>'
        '<text:user-field-get text:name="u">U</text:user-field-get></text:p>'
        '<text:list text:style-name="L" text:continue-numbering="true"><text:list-header><text:p>lh</text:p>'
        '</text:list-header><text:list-item text:start-value="3"><text:p>l1</text:p><text:p>l2</text:p>'
        '</text:list-item><text:list-item><text:p>l3</text:p></text:list-item></text:list>'
        '<text:numbered-paragraph text:level="2"><text:p>np</text:p></text:numbered-paragraph>'
        '<text:section text:name="sec" text:protected="true" text:protection-key="k"><text:p>in</text:p>'
        '</text:section><text:soft-page-break/>')
CELLS = ('<table:table-row table:style-name="r" table:visibility="collapse">'
         '<table:table-cell office:value-type="float" office:value="1.5" table:formula="of:=1"><text:p>1,5</text:p>'
         '</table:table-cell><table:table-cell office:value-type="currency" office:currency="EUR" '
         'office:value="2"><text:p>2 E</text:p></table:table-cell><table:table-cell '
         'office:value-type="boolean" office:boolean-value="true" table:protect="true"/>'
         '</table:table-row><table:table-row%(rr)s><table:table-cell table:style-name="c" '
         'table:number-columns-spanned="2" table:number-rows-spanned="1" office:value-type="string">'
         '<text:p>a</text:p><text:p>b</text:p></table:table-cell><table:covered-table-cell/>'
         '<table:table-cell office:value-type="date" office:date-value="2011-01-02" '
         'table:content-validation-name="val"%(cr)s><text:p>2.1.</text:p></table:table-cell></table:table-row>')
COLS = ('<table:table-column table:style-name="k" table:visibility="filter" '
        'table:default-cell-style-name="d"%(kr)s/><table:table-column/><table:table-column/>')
ONE = dict(rr="", cr="", kr="")
MORE = dict(rr=' table:number-rows-repeated="3"', cr=' table:number-columns-repeated="2"',
            kr=' table:number-columns-repeated="2"')
SHEETS = ('<table:content-validations/><table:table table:name="s" table:style-name="t" '
          'table:protected="true" table:print="false">%(c)s</table:table>'
          '<table:table table:name="o"><table:table-column/><table:table-row><table:table-cell/>'
          '</table:table-row></table:table><table:named-expressions/>')
PAGES = ('<draw:page draw:name="p" draw:style-name="d"/><!-- c --><draw:page draw:name="q"/>'
         '<draw:page/>')
STYLES = ('<style:style style:name="S" style:family="text" style:display-name="s" '
          'style:parent-style-name="T"/><style:style style:name="T" style:family="paragraph"/>'
          '<style:default-style style:family="text"/>')
META = ('<meta:generator>G</meta:generator><dc:title>T</dc:title><dc:subject/><dc:date>2011-01-02T03:04:05</dc:date>'
        '<meta:keyword>k</meta:keyword><meta:keyword>l</meta:keyword>'
        '<meta:user-defined meta:name="x" meta:value-type="float">1</meta:user-defined>'
        '<meta:user-defined meta:name="y">z</meta:user-defined>'
        '<meta:document-statistic meta:page-count="3"/>')
PICS = [("Pictures/a.png", b"abc" * 9, False), ("Object 1/content.xml", b"<o/>", True)]


def pack(ext, inner):
    return odf.package(ext, inner, PICS, meta=META, styles=STYLES,
                       autostyles='<style:style style:name="A" style:family="text"/>')


SOURCES = {
    "odt": pack("odt", TEXT),
    "ods": pack("ods", SHEETS % {"c": (COLS + CELLS) % ONE}),
    "groups": pack("ods", SHEETS % {"c": "<table:table-header-columns>%s</table:table-header-columns>"
                                         "<table:table-header-rows>%s</table:table-header-rows>"
                                         % (COLS % ONE, CELLS % ONE)}),
    "repeated": pack("ods", SHEETS % {"c": (COLS + CELLS) % MORE}),
    "odp": pack("odp", PAGES),
    "odg": pack("odg", PAGES),
    "flat": odf.flat(META, "odt", TEXT),
    "flat sheets": odf.flat(META, "ods", SHEETS % {"c": (COLS + CELLS) % ONE}),
}
# nothing but what the accesses need; no attribute, no part which is not necessary
SOURCES["bare text"] = odf.package(
    "odt", '<text:variable-decls/><text:sequence-decls/><text:user-field-decls/><text:h><text:s/></text:h>'
    '<text:p><text:span/><text:a/></text:p><text:list><text:list-item/></text:list>'
    '<text:numbered-paragraph><text:h/></text:numbered-paragraph><text:section/><text:soft-page-break/>',
    meta="<meta:document-statistic/>")
SOURCES["bare sheets"] = odf.package(
    "ods", '<table:table><table:table-column/><table:table-column/><table:table-column/>%s</table:table>'
    '<table:table table:name="o"/>' % (("<table:table-row>%s</table:table-row>" % ("<table:table-cell/>" * 3)) * 2),
    meta="<meta:document-statistic/>")
EMPTY = "<table:table-row>%s</table:table-row>"
SOURCES["empty cells"] = odf.package(
    "ods", '<table:table table:name=""><table:table-column/><table:table-column/><table:table-column/>%s%s'
    '</table:table>' % (
        EMPTY % "".join('<table:table-cell office:value-type="%s"/>' % t for t in ("string", "float", "boolean")),
        EMPTY % ('<table:table-cell office:value-type="date"/><table:table-cell office:value-type="time">'
                 '<text:p/></table:table-cell><table:covered-table-cell/>')),
    meta="<meta:document-statistic/>")
BARE = ("bare text", "bare sheets", "empty cells")
LAZY = ("repeated",)        # reading tables expands them


# ---------------------------------------------------------------- the accesses

def plain(x):
    """Comparable form of a result."""
    if isinstance(x, GenericWrapper):
        n = x.xmlnode
        if not isinstance(n.tag, str):
            return ("comment", n.text)
        return ("element", odf.local(n), tuple(sorted(n.attrib.items())), "".join(n.itertext()))
    if isinstance(x, etree._Element):
        return ("node", odf.local(x), tuple(sorted(x.attrib.items())))
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return (type(x).__name__, x)
    if isinstance(x, dict):
        return tuple(sorted((k, plain(v)) for k, v in x.items()))
    if hasattr(x, "__iter__"):
        return tuple(plain(v) for v in x)
    if hasattr(x, "xmlnode"):
        return ("style", plain(x.xmlnode))
    return ("object", type(x).__name__)


def prop(get, names):
    return {"%s" % n: (lambda d, n=n: getattr(get(d), n)) for n in names.split()}


def call(get, **calls):
    return {n: (lambda d, f=f: f(get(d))) for n, f in calls.items()}


def group(prefix, *dicts):
    return {"%s: %s" % (prefix, n): f for x in dicts for n, f in x.items()}


GENERIC = dict(
    length=len, children=list, first=lambda w: w[0], last=lambda w: w.get_child(-1),
    beyond=lambda w: w[99], find=lambda w: w.find(q("text:p")), missing=lambda w: w.find(q("text:q")),
    findall=lambda w: w.findall(q("text:p")), attr=lambda w: w.get_attr("nope", "default"),
    flag=lambda w: w.get_bool_attr("nope"), root=lambda w: w.get_xmlroot(),
    position=lambda w: w.index(w[0]))

ALL = {}
ALL.update(group("document", prop(lambda d: d, "doctype mimetype backup application_body_tag"),
                 call(lambda d: d, body=lambda d: d.body.kind, root=lambda d: d.body.get_xmlroot())))
META_ = lambda d: d.meta                                                        # noqa
ALL.update(group("meta", {k: (lambda d, k=k: d.meta[k]) for k in (
    "title", "subject", "generator", "date", "editing-cycles", "description", "nope")},
    call(META_, keywords=lambda m: list(m.keywords), keyword=lambda m: "k" in m.keywords,
         nokeyword=lambda m: "q" in m.keywords, tags=lambda m: list(m.usertags),
         tag=lambda m: m.usertags["x"], typ=lambda m: m.usertags.typeof("y"),
         notag=lambda m: m.usertags["q"], hastag=lambda m: "y" in m.usertags,
         pages=lambda m: m.count["page"], cells=lambda m: m.count["cell"], nocount=lambda m: m.count["q"],
         counts=lambda m: list(m.count))))
FM = lambda d: d.filemanager                                                    # noqa
PACK = group("members", call(
    FM, bytes=lambda f: f.get_bytes("Pictures/a.png"), missing=lambda f: f.get_bytes("nope"),
    text=lambda f: f.get_text("Object 1/content.xml"), default=lambda f: f.get_text("nope", "default"),
    xml=lambda f: f.get_xml_element("Object 1/content.xml"), noxml=lambda f: f.get_xml_element("nope"),
    entry=lambda f: f.manifest.find("Pictures/a.png"), noentry=lambda f: f.manifest.find("nope"),
    manifest=lambda f: f.manifest.tobytes(), zip=lambda f: f.has_zip()))
PACK.update(group("parts", call(
    lambda d: d, style=lambda d: d.styles.styles["S"]["display-name"], family=lambda d: d.styles.styles["T"]["family"],
    parent=lambda d: d.styles.styles["S"]["parent-style-name"], unset=lambda d: d.styles.styles["T"]["class"],
    nostyle=lambda d: d.styles.styles["nope"], noattr=lambda d: d.styles.styles["S"]["nope"],
    auto=lambda d: d.content.automatic_styles["A"]["name"], master=lambda d: d.styles.master_styles["nope"],
    written=lambda d: len(odf.members(d.tobytes())), styles=lambda d: d.styles.tobytes(),
    content=lambda d: len(d.content.tobytes()) > 0)))
BODY = lambda d: d.body                                                         # noqa
BODY_READS = group("body", call(BODY, **GENERIC), prop(BODY, "kind text tail"))
VARS = group("variables", call(
    BODY, v=lambda b: (b.variables["v"].value, b.variables["v"].type),
    w=lambda b: (b.variables["w"].value, b.variables["w"].type), has=lambda b: "v" in b.variables,
    hasnot=lambda b: "q" in b.variables, missing=lambda b: b.variables["q"],
    fields=lambda b: [(i.kind, i.value, i.type) for i in b.variables["v"].instances],
    names=lambda b: [x.name for x in b.variables], u=lambda b: (b.userfields["u"].value, b.userfields["u"].type),
    b=lambda b: (b.userfields["b"].value, b.userfields["b"].type), nou=lambda b: b.userfields["q"],
    ufields=lambda b: [(i.kind, i.value) for i in b.userfields["u"].instances],
    unames=lambda b: [x.name for x in b.userfields]))
EL = lambda tag: (lambda d: d.body.find(q(tag)))                                # noqa
TEXTS = {}
for name, tag, props in (
        ("heading", "text:h", "plaintext style_name outline_level start_value restart_numbering "
                              "suppress_numbering formatted_number textlen text tail kind"),
        ("paragraph", "text:p", "style_name cond_style_name ID textlen text tail kind"),
        ("list", "text:list", "style_name continue_numbering header kind"),
        ("numbered", "text:numbered-paragraph", "level start_value formatted_number content"),
        ("section", "text:section", "name style_name protected textlen"),
        ("break", "text:soft-page-break", "textlen kind")):
    TEXTS.update(group(name, prop(EL(tag), props.replace("plaintext ", "")),
                       call(EL(tag), plaintext=lambda w: w.plaintext())))
P = EL("text:p")
TEXTS.update(group("paragraph", call(P, **GENERIC)))
TEXTS.update(group("span", prop(lambda d: P(d)[0], "style_name textlen text tail kind"),
                   call(lambda d: P(d)[0], plaintext=lambda w: w.plaintext())))
TEXTS.update(group("link", prop(lambda d: P(d).find(q("text:a")), "href name target_frame style_name textlen")))
TEXTS.update(group("spaces", prop(lambda d: EL("text:h")(d)[0], "count textlen kind")))
L = EL("text:list")
TEXTS.update(group("items", call(
    L, items=lambda l: [(i.plaintext(), i.start_value, i.formatted_number) for i in l.iteritems()],
    header=lambda l: l.header.plaintext(), length=len)))
SHEET_LIST = group("sheets", call(
    lambda d: d.sheets, length=len, names=lambda s: list(s.names()), each=lambda s: [x.name for x in s],
    byname=lambda s: s["o"].name, last=lambda s: s[-1].name, missing=lambda s: s["nope"],
    beyond=lambda s: s[9], index=lambda s: s.index(s["o"]), badkey=lambda s: s[1.5]))
T = lambda d: d.sheets[0]                                                       # noqa
SHEET_LIST.update(group("table", prop(T, "name style_name protected print_ kind"), call(
    T, nrows=lambda t: t.nrows(), ncols=lambda t: t.ncols(), values=lambda t: [[c.value for c in r] for r in t.rows()],
    columns=lambda t: [[c.value for c in r] for r in t.columns()], row=lambda t: [c.value for c in t.row(-1)],
    rowname=lambda t: [c.value for c in t.row("A1")], column=lambda t: [c.value for c in t.column("B1")],
    cells=lambda t: [(p, c.value_type) for p, c in t.itercells()], beyond=lambda t: t[99, 0].value,
    badname=lambda t: t["1A"], copy=lambda t: [c.value for c in t.copy("n").row(0)],
    rowinfo=lambda t: (t.row_info(0).style_name, t.row_info(0).visibility, t.row_info(1).default_cell_style_name),
    colinfo=lambda t: (t.column_info("A1").style_name, t.column_info(0).visibility,
                       t.column_info(-1).default_cell_style_name),
    covered=lambda t: [c.covered for p, c in t.itercells()], spans=lambda t: [c.span for p, c in t.itercells()],
    nocol=lambda t: t.column_info(99), second=lambda t: t.get_xmlroot())))
for a in ("A1", "B1", "C1", "A2", "B2", "C2"):
    SHEET_LIST.update(group(a, prop(lambda d, a=a: T(d)[a], "value value_type currency display_form formula "
                                    "style_name protected content_validation_name covered span textlen"),
                            call(lambda d, a=a: T(d)[a], plaintext=lambda c: c.plaintext())))
PAGE_LIST = group("pages", call(
    lambda d: d.pages, length=len, names=lambda s: list(s.names()), each=lambda s: [x.name for x in s],
    byname=lambda s: s["q"].name, last=lambda s: s[-1].name, missing=lambda s: s["nope"],
    beyond=lambda s: s[9], index=lambda s: s.index(s["q"]), kind=lambda s: s[0].kind))


def accesses(name):
    out = dict(ALL)
    out.update(BODY_READS)
    if not name.startswith("flat"):
        out.update(PACK)
    if name in ("odt", "flat", "bare text"):
        out.update(VARS)
        out.update(TEXTS)
    elif name in ("odp", "odg"):
        out.update(PAGE_LIST)
    else:
        out.update(SHEET_LIST)
    return out


# accesses of something which does not exist
REFUSED = set("""meta: editing-cycles|meta: description|meta: nope|meta: notag|meta: nocount|body: beyond|
parts: nostyle|parts: noattr|parts: master|variables: missing|variables: nou|paragraph: beyond|sheets: missing|
sheets: beyond|sheets: badkey|table: beyond|table: badname|table: nocol|pages: missing|pages: beyond"""
              .replace("\n", "").split("|"))


def read(f, doc):
    try:
        return plain(f(doc))
    except Exception as e:
        return ("error", type(e).__name__)


def look(doc, name):
    return {n: read(f, doc) for n, f in accesses(name).items()}


def parts(doc, name):
    """The stored document."""
    if name.startswith("flat"):
        return {"": etree.tostring(doc.xmlnode, method="c14n")}
    return {n: etree.tostring(etree.fromstring(d), method="c14n") if n.endswith(".xml") else d
            for n, _, d in odf.members(doc.tobytes())}


_fresh = {}


def fresh(name):
    """Every access alone on a document of its own; the stored document unread,
    and after all accesses."""
    if name not in _fresh:
        alone = {n: read(f, odf.open_any(SOURCES[name])) for n, f in accesses(name).items()}
        for n, r in alone.items():
            need(name in BARE or (r[:1] == ("error",)) == (n in REFUSED),
                 "%s of %s: %s", n, name, r)
        unread = parts(odf.open_any(SOURCES[name]), name)
        doc = odf.open_any(SOURCES[name])
        look(doc, name)
        _fresh[name] = alone, unread, parts(doc, name)
    return _fresh[name]


def compare(name, doc, what):
    alone, unread, after = fresh(name)
    got = look(doc, name)
    for n in alone:
        need(got[n] == alone[n], "%s, then %s: got %s, in a new document %s", what, n, str(got[n])[:150],
             str(alone[n])[:150])
    same("the stored document", parts(doc, name), after)
    if name not in LAZY:
        same("the document which nobody read", after, unread)


def pairs(tier):
    for name in sorted(SOURCES):
        reads = list(accesses(name))
        for n in reads:
            yield (name, (n,), False)
            yield (name, (n,) * 3, False)
            yield (name, (n,), True)
        if name == "odg" and tier == "quick":
            continue
        for a, b in itertools.permutations(reads, 2):
            if tier == "quick" and name in ("groups", "flat sheets", "flat", "empty cells", "bare sheets") and \
                    a.split(":")[0] != b.split(":")[0]:
                continue
            yield (name, (a, b), False)


def triples(tier):
    """Three accesses of one object each, thorough only: of all objects."""
    for name in ("odt", "ods", "repeated"):
        reads = list(accesses(name))
        firsts = {}
        for n in reads:
            firsts.setdefault(n.split(":")[0], []).append(n)
        few = [x for g in firsts.values() for x in g[:1 if tier == "quick" else 4]]
        for t in itertools.permutations(few, 3):
            yield (name, t, False)


def run(case):
    name, seq, again = case
    alone = fresh(name)[0]
    doc = odf.open_any(SOURCES[name])
    fs = accesses(name)
    for i, n in enumerate(seq):
        got = read(fs[n], doc)
        need(got == alone[n], "%s after %s: got %s, in a new document %s", n, list(seq[:i]), str(got)[:150],
             str(alone[n])[:150])
    if again:       # written and opened again
        with scratch() as folder:
            path = os.path.join(folder, "d")
            before = parts(doc, name)
            if name.startswith("flat"):
                doc.saveas(path)
                doc = ezodf.opendoc(path)
                stored = parts(doc, name)
                return (name, len(stored) == len(before))
            data = doc.tobytes()
            with open(path, "wb") as f:
                f.write(data)
            same("the members", sorted(zipfile.ZipFile(io.BytesIO(data)).namelist()), sorted(before))
            doc = ezodf.opendoc(path)
            same("the written document", parts(doc, name), before)
            return (name, seq)
    compare(name, doc, list(seq))
    return (name, seq)


# ---------------------------------------------------------------- interleaved iterations

ITER = {
    "keywords": lambda d: d.meta.keywords, "tags": lambda d: d.meta.usertags, "counts": lambda d: d.meta.count,
    "body": lambda d: d.body, "found": lambda d: d.body.findall(q("text:p"))}
ITER_TEXT = {
    "paragraph": lambda d: P(d), "list": lambda d: L(d), "items": lambda d: L(d).iteritems(),
    "variables": lambda d: d.body.variables, "userfields": lambda d: d.body.userfields,
    "fields": lambda d: d.body.variables["v"].instances, "spans": lambda d: P(d).findall(q("text:span"))}
ITER_SHEETS = {
    "sheets": lambda d: d.sheets, "names": lambda d: d.sheets.names(), "rows": lambda d: T(d).rows(),
    "columns": lambda d: T(d).columns(), "cells": lambda d: T(d).itercells(), "row": lambda d: T(d).row(0),
    "table": lambda d: T(d), "other cells": lambda d: d.sheets["o"].itercells()}
ITER_PAGES = {"pages": lambda d: d.pages, "names": lambda d: d.pages.names()}


def iterators(name):
    out = dict(ITER)
    out.update(ITER_TEXT if name in ("odt", "flat") else ITER_PAGES if name in ("odp", "odg") else ITER_SHEETS)
    return out


def merge_cases(tier):
    k = 3 if tier == "quick" else 5
    for name in ("odt", "ods", "repeated", "odp", "flat"):
        for a, b in itertools.product(iterators(name), repeat=2):
            for first in itertools.combinations(range(2 * k), k):
                yield (name, a, b, [0 if i in first else 1 for i in range(2 * k)])


def merge_run(case):
    """Two iterations at the same time; then both are continued to the end."""
    name, a, b, turns = case
    doc = odf.open_any(SOURCES[name])
    makers = iterators(name)
    want = []
    for n in (a, b):
        key = (name, "iterate", n)
        if key not in _fresh:
            _fresh[key] = [plain(x) for x in makers[n](odf.open_any(SOURCES[name]))]
        want.append(_fresh[key])
    its = [iter(makers[a](doc)), iter(makers[b](doc))]
    got, end = [[], []], object()
    for i in turns:
        x = next(its[i], end)
        if x is not end:
            got[i].append(plain(x))
    for i in (0, 1):
        got[i] += [plain(x) for x in its[i]]
        same("the iteration of %s (steps of %s and %s: %s)" % ((a, b)[i], a, b, turns), got[i], want[i])
    if name not in LAZY:
        same("the stored document", parts(doc, name), fresh(name)[1])
    return (name, a, b, len(got[0]), len(got[1]))


# ---------------------------------------------------------------- a new interpreter

PROGRAM = """
import sys
sys.path.insert(0, sys.argv[1])
import warnings
warnings.simplefilter("ignore")
import ezodf
doc = ezodf.opendoc(sys.argv[2])
def show(w):
    print(type(w).__name__, getattr(w, "name", None))
    for c in w:
        show(c) if isinstance(c.xmlnode.tag, str) else None
show(doc.body)
for x in list(getattr(doc, "sheets", [])) + list(getattr(doc, "pages", [])):
    print(type(x).__name__, x.name)
"""


def new_cases(tier):
    return [(n,) for n in sorted(SOURCES)]


def new_run(case):
    """A program which imports nothing but ezodf sees the same classes."""
    name = case[0]
    with scratch() as folder:
        path = os.path.join(folder, "d")
        with open(path, "wb") as f:
            f.write(SOURCES[name])
        got = subprocess.run([sys.executable, "-c", PROGRAM, mc.REPO, path], capture_output=True, text=True)
        need(got.returncode == 0, "a program with this document fails: %s", got.stderr[-200:])
        doc = ezodf.opendoc(path)
        want = []

        def show(w):
            want.append("%s %s" % (type(w).__name__, getattr(w, "name", None)))
            for c in w:
                if isinstance(c.xmlnode.tag, str):
                    show(c)
        show(doc.body)
        for x in list(getattr(doc, "sheets", [])) + list(getattr(doc, "pages", [])):
            want.append("%s %s" % (type(x).__name__, x.name))
    same("the classes", got.stdout.split("\n")[:-1], want)
    return (name, len(want))


CHECKS = [
    Check("P35", "model_checking",
          [Cases("new interpreter", new_cases, new_run), Cases("pairs of accesses", pairs, run), Cases("three accesses", triples, run),
           Cases("two iterations", merge_cases, merge_run)],
          "every pair of read accesses (about 60 to 160 per kind of document) and every triple of "
          "accesses of different objects, then all accesses: the results are those of a document of "
          "its own for each access, and the document stays as it was stored; all interleavings of the "
          "steps of two iterations"),
]
