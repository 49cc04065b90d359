"""Crashes and I/O faults while saving and opening."""
import errno
import io
import itertools
import os

from lxml import etree

import ezodf
from ezodf import Paragraph

from lib import odf
from lib.faults import Faults
from lib.mc import Cases, Check, Mismatch, need, same, scratch
from lib.odf import MIME, q

# does not compress: several writes
BIG = bytes((i * i * 7 + i // 3 + (i >> 5) * 31) & 255 for i in range(30000))
PICS = [("Pictures/a.png", BIG, False), ("settings.xml", b"<settings/>", True)]


# ---------------------------------------------------------------- documents

def source(kind, items):
    body = "".join("<text:p>%s</text:p>" % i for i in items)
    if kind == "flat":
        return odf.flat("<dc:title>t</dc:title>", "odt", body)
    return odf.package("ott" if kind == "template" else "odt", body,
                       PICS if kind != "new" else [], "<dc:title>t</dc:title>")


def complete(kind, data, items):
    """Problems of `data` as the complete document with these items."""
    if kind == "flat":
        try:
            root = etree.fromstring(data)
        except Exception as e:
            return "not well-formed: %s" % e
        got = ["".join(p.itertext()) for p in root.iter(q("text:p"))]
        title = root.findtext(".//" + q("dc:title"))
    else:
        bad = odf.check_package(data, MIME["odt"])
        if bad:
            return "; ".join(bad)
        got = ["".join(p.itertext()) for p in odf.app_body(data).iter(q("text:p"))]
        title = etree.fromstring(odf.part(data, "meta.xml")).findtext(".//" + q("dc:title"))
        mem = {n: d for n, _, d in odf.members(data)}
        if kind != "new":
            for n, d, _ in PICS:
                if mem.get(n) != d:
                    return "member %s is %s" % (n, "missing" if n not in mem else "damaged")
    if got != items:
        return "content is %r instead of %r" % (got, items)
    if title != "t":
        return "title is %r" % title
    return None


def open_doc(kind, folder):
    src = os.path.join(folder, "src.odt")
    if kind == "new":
        doc = ezodf.newdoc("odt", src)
        doc.meta["title"] = "t"
        return doc
    if kind in ("bytes", "stream"):
        with open(src, "rb") as f:
            data = f.read()
        doc = ezodf.opendoc(data if kind == "bytes" else io.BytesIO(data))
        doc.docname = src
        return doc
    if kind == "template":
        return ezodf.newdoc("odt", os.path.join(folder, "new.odt"), template=src)
    return ezodf.opendoc(src)


def items_of(doc):
    return [n.plaintext() for n in doc.body if n.kind == "Paragraph"]


# files of somebody else, with names a program could think of for its own purposes
BYSTANDERS = ["%s.tmp", "%s~", "%s.new", "%s.old", "%s.bak~", "%s.bak.tmp", ".%s.tmp", ".%s.swp",
              ".~%s", "~%s", "#%s#", "_%s", "tmp_%s", "%s.part", "%s.1", "%s.save", "tmp", "ezodf.tmp",
              "ezodf0.tmp", "other.bak", "fresh.tmp", "src.tmp", "new.tmp", "own.tmp", "other.tmp",
              "src.bak", "backup.odt"]


# scenario: (kind, target, backup, older backup, saves before, action)
def save_scenarios(tier):
    out = []
    for kind in ("path", "bytes", "stream", "template", "new", "flat"):
        for target in ("same", "other", "fresh"):
            for backup in (True, False):
                for older in (True, False):
                    for before in (0, 1) if tier == "quick" else (0, 1, 2):
                        if target == "fresh" and older or \
                                kind in ("template", "new") and target == "same" and not before:
                            continue
                        out.append((kind, target, backup, older, before, "save"))
    return out


def prepare(scenario, folder):
    """Files, document and expectations of a scenario."""
    kind, target, backup, older, before, action = scenario
    first = ["one", "two"]
    src = os.path.join(folder, "src.odt")
    if kind != "new":
        with open(src, "wb") as f:
            f.write(source(kind, first))
    doc = open_doc(kind, folder)
    doc.backup = backup
    items = list(first) if kind != "new" else []
    own = doc.docname
    goal = {"same": own, "other": os.path.join(folder, "other.odt"),
            "fresh": os.path.join(folder, "fresh.odt")}[target]
    for i in range(before):
        doc.body.append(Paragraph("before %d" % i))
        items.append("before %d" % i)
        if target == "fresh" or target == "other":
            doc.saveas(os.path.join(folder, "own.odt"))
        else:
            doc.save()
    if target == "other":
        with open(goal, "wb") as f:
            f.write(source("flat" if kind == "flat" else "path", ["somebody", "else"]))
    if older:
        with open(goal + ".bak", "wb") as f:
            f.write(source("flat" if kind == "flat" else "path", ["very", "old"]))
    elif os.path.exists(goal + ".bak"):
        os.remove(goal + ".bak")
    doc.body.append(Paragraph("last"))
    items.append("last")
    base = os.path.basename(goal)
    for n in BYSTANDERS:
        with open(os.path.join(folder, n % base if "%s" in n else n), "wb") as f:
            f.write(b"not yours: " + n.encode())
    snap = {}
    for n in os.listdir(folder):
        with open(os.path.join(folder, n), "rb") as f:
            snap[n] = f.read()
    return doc, goal, items, snap


def act(doc, goal):
    if doc.docname == goal:
        doc.save()
    else:
        doc.saveas(goal)


def listing(folder):
    out = {}
    for n in sorted(os.listdir(folder)):
        with open(os.path.join(folder, n), "rb") as f:
            out[n] = f.read()
    return out


def judge_files(scenario, goal, items, snap, after, crashed, failed):
    """The state of the directory; returns (problem, outcome)."""
    kind, target, backup, older, before, action = scenario
    name = os.path.basename(goal)
    old, now = snap.get(name), after.get(name)
    bak, oldbak = after.get(name + ".bak"), snap.get(name + ".bak")
    if now is not None:
        if old is not None and now == old:
            state = "old"
        else:
            bad = complete(kind, now, items)
            if bad:
                return "the file is neither the complete old nor the complete new document: " + \
                    bad, None
            state = "new"
    else:
        state = "missing"
        if old is not None:
            if not backup:
                return "the file is missing although backups are disabled", None
            if bak != old:
                return "the file is missing and the backup is not the complete old document", None
    if bak is not None and bak != oldbak and bak != old:
        return "the backup file is neither the old backup nor the old document", None
    if oldbak is not None and bak is None and state == "missing":
        return "file and backup are missing", None
    # all other files are untouched
    for n, data in snap.items():
        if n not in (name, name + ".bak") and after.get(n) != data:
            return "the unrelated file %s was changed" % n, None
    extra = [n for n in after if n not in snap and n not in (name, name + ".bak")]
    if not crashed and extra:
        return "files left behind: %r" % extra, None
    if not crashed and not failed and state != "new":
        return "saving reported success, but the file is %s" % state, None
    return None, state + ("+bak" if bak is not None else "")


# ---------------------------------------------------------------- server side

def serve(req):
    from lib import faultserver as fs
    shim, folder = fs.SHIM, req["dir"]
    shim.prefix(folder)
    scenario, plan = req["scenario"], req["plan"]
    scenario = tuple(scenario)
    opening = scenario[-1] != "save"

    keep = {}

    def child():
        if opening:
            return open_child(shim, scenario, plan, folder, fs)
        doc, goal, items, snap = prepare(scenario, folder)
        mode = {None: fs.COUNT, "crash": fs.CRASH, "fault": fs.FAULT, "short": fs.SHORT,
                "signal": fs.SIGNAL, "stuck": fs.STUCK}[plan and plan[0]]
        exc = None
        shim.arm(mode, *(plan[1:4] if plan else (-1,)))
        try:
            act(doc, goal)
        except KeyboardInterrupt as e:
            exc = e
        except Exception as e:
            exc = e
        log = shim.disarm()
        res = {"log": log, "exc": exc and "%s: %s" % (type(exc).__name__, exc)}
        del exc
        # temporary files can't be removed if every change fails
        gone = bool(plan) and plan[0] == "stuck" and plan[3] == 2 and res["exc"] is not None
        bad, outcome = judge_files(scenario, goal, items, snap, listing(folder), gone,
                                   res["exc"] is not None)
        if bad is None and items_of(doc) != items:
            bad = "the document in memory changed: %r" % items_of(doc)
        if bad is None and res["exc"] and plan and plan[0] == "short":
            bad = "a short write is not an error: " + res["exc"]
        # (the document has to be where it was: a lost rename can't be undone
        # while everything fails, the document is the backup then)
        if bad is None and not (gone and outcome.startswith("missing")):
            # the next save without a fault writes everything
            now = listing(folder)
            doc.body.append(Paragraph("again"))
            try:
                act(doc, goal)
            except Exception as e:
                bad = "saving again failed: %s: %s" % (type(e).__name__, e)
            else:
                after = listing(folder)
                b = complete(scenario[0], after[os.path.basename(goal)], items + ["again"])
                if b:
                    bad = "saving again: " + b
                extra = [n for n in after if n not in now and
                         n not in (os.path.basename(goal), os.path.basename(goal) + ".bak")]
                if extra:
                    bad = bad or "saving again left files behind: %r" % extra
        res["bad"] = bad and (bad + (" (save raised %s)" % res["exc"] if res["exc"] else
                                     " (save reported success)"))
        res["outcome"] = (outcome or "") + ("!" + res["exc"].split(":")[0] if res["exc"] else "")
        return res

    if plan is None or plan[0] != "crash":
        code, res = fs.in_child(child)
        out = finish(code, res, plan)
    else:
        # expectations are computed here, the crash happens in the child
        expect = expected(scenario, folder, fs)
        code, res = fs.in_child(child)
        if code == "hang":
            out = {"bad": "no progress"}
        elif code != 77:
            # the crash point was not reached
            out = {"bad": "saving did not end at the crash point (exit %r, %r)" % (code, res)}
        else:
            goal, items, snap = expect
            after = listing(folder)
            bad, outcome = judge_files(scenario, goal, items, snap, after, True, False)
            if bad is None:
                bad = recover(scenario, goal, items, snap, after)
            out = {"bad": bad, "outcome": outcome, "at": plan[4]}
    clean(folder)
    return out


def finish(code, res, plan):
    if code == "hang":
        return {"bad": "no progress"}
    if code != 0 or res is None:
        return {"bad": "the process died (status %r)" % code}
    if "error" in res:
        return {"bad": "unexpected " + res["error"]}
    out = res["value"]
    if plan:
        out["at"] = plan[4] if len(plan) > 4 else "?"
        out["log"] = []
    return out


def clean(folder):
    for n in os.listdir(folder):
        os.remove(os.path.join(folder, n))
    os.rmdir(folder)


def expected(scenario, folder, fs):
    """Runs the preparation in a child and reads the resulting files."""
    def child():
        doc, goal, items, snap = prepare(scenario, folder)
        return [goal, items]
    code, res = fs.in_child(child)
    if code != 0 or "error" in (res or {"error": 1}):
        raise RuntimeError("preparation failed: %r %r" % (code, res))
    goal, items = res["value"]
    # the crash child prepares the same directory once more
    snap = listing(folder)
    for n in snap:
        os.remove(os.path.join(folder, n))
    # file dates and times of saves may differ: compare with what is there then
    return goal, items, Lazy(snap, folder, scenario)


class Lazy(dict):
    """Snapshot of the prepared files.  The crashing child prepares them anew,
    so files written by the library are compared by content."""

    def __init__(self, snap, folder, scenario):
        dict.__init__(self)
        for n, d in snap.items():
            self[n] = Doc(d, scenario[0])


class Doc(bytes):
    """Bytes which are equal to documents with the same members/content."""

    def __new__(cls, data, kind):
        self = bytes.__new__(cls, data)
        self.kind = kind
        return self

    def __eq__(self, other):
        if other is None:
            return False
        if bytes(self) == bytes(other):
            return True
        return normal(bytes(self)) is not None and normal(bytes(self)) == normal(bytes(other))

    def __ne__(self, other):
        return not self == other

    __hash__ = bytes.__hash__


VOLATILE = {q("dc:date"), q("meta:creation-date")}


def normal(data):
    """Content without dates (None: not a complete document)."""
    def tree(x):
        root = etree.fromstring(x)
        for n in list(root.iter()):
            if n.tag in VOLATILE:
                n.text = ""
        return etree.tostring(root)
    try:
        if data[:2] == b"PK":
            if odf.check_package(data, MIME["odt"]):
                return None
            return [(n, tree(d) if n == "meta.xml" else d) for n, _, d in odf.members(data)]
        return tree(data)
    except Exception:
        return None


def recover(scenario, goal, items, snap, after):
    """What is found after a crash can be opened, edited and saved."""
    name = os.path.basename(goal)
    path = goal if name in after else goal + ".bak"
    if os.path.basename(path) not in after:
        return None                     # a new file was not finished
    try:
        doc = ezodf.opendoc(path)
        want = items_of(doc) + ["recovered"]
        doc.body.append(Paragraph("recovered"))
        doc.saveas(goal)
        with open(goal, "rb") as f:
            data = f.read()
    except Exception as e:
        return "what is left after the crash cannot be used: %s: %s" % (type(e).__name__, e)
    got = items_of(ezodf.opendoc(goal))
    if got != want:
        return "saving after the crash gives %r instead of %r" % (got, want)
    if scenario[0] != "flat":
        bad = odf.check_package(data, MIME["odt"])
        if bad:
            return "saving after the crash: " + "; ".join(bad)
    return None


def crash_plans(tier, scenario, log):
    out = []
    for k, (op, size, mut) in enumerate(log):
        if not mut:
            continue
        out.append(("crash", k, 0, 0, op))
        if op == "write":
            if tier == "quick":
                parts = {1, size // 2, size - 1}
            else:
                parts = {1, 2, 29, 30, 31, size - 1, size - 2, size - 21, size - 22} | \
                    {size * i // 12 for i in range(1, 12)}
            out += [("crash", k, 0, p, "torn " + op) for p in sorted(parts) if 0 < p < size]
    return out


ERRNOS = {"quick": ("ENOSPC", "EIO", "EACCES"),
          "thorough": ("ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS", "EMFILE", "EINTR", "EBUSY")}
# the positioning of an open file and the status of an open file cannot fail
SOUND = ("lseek", "fstat")


def fault_plans(tier, scenario, log):
    out = []
    for k, (op, size, mut) in enumerate(log):
        if op not in SOUND:
            for e in ERRNOS[tier]:
                if e == "EINTR" and op == "close":
                    continue
                out.append(("fault", k, getattr(errno, e), 0, op))
        # the disk is full, read-only or unreadable from this call on
        for part, e, ops in ((1, "ENOSPC", ("write",)), (2, "EROFS", (op,) if mut else ()),
                             (3, "EIO", ("read", "open"))):
            if op in ops:
                out.append(("stuck", k, getattr(errno, e), part, "%s and later" % op))
        if scenario[-1] != "save":
            continue
        if op == "write" and size > 1:
            out.append(("short", k, 0, size // 2, op))
            out.append(("short", k, 0, 1, op))
        if mut:
            out.append(("signal", k, 0, 0, op))
    return out


# ---------------------------------------------------------------- opening

def open_scenarios(tier):
    out = []
    for kind in ("path", "template", "flat", "no-mimetype", "reader"):
        out.append((kind, "open"))
    return out


def open_child(shim, scenario, plan, folder, fs):
    kind = scenario[0]
    src = os.path.join(folder, "src.odt")
    first = ["one", "two"]
    data = source({"no-mimetype": "path", "reader": "path"}.get(kind, kind), first)
    if kind == "no-mimetype":
        data = odf.replace_member(data, "mimetype", None)
    with open(src, "wb") as f:
        f.write(data)
    doc = None

    def go():
        if kind == "template":
            return ezodf.newdoc("odt", os.path.join(folder, "new.odt"), template=src)
        return ezodf.opendoc(src)
    if kind == "reader":
        doc = go()
    mode = {None: fs.COUNT, "fault": fs.FAULT, "stuck": fs.STUCK}[plan and plan[0]]
    exc = None
    got = None
    shim.arm(mode, *(plan[1:4] if plan else (-1,)))
    try:
        if kind == "reader":
            got = doc.tobytes()
        else:
            doc = go()
    except Exception as e:
        exc = "%s: %s" % (type(e).__name__, e)
    log = shim.disarm()
    bad = None
    flat = "flat" if kind == "flat" else "path"

    def check(doc):
        if items_of(doc) != first:
            return "content is %r" % items_of(doc)
        if doc.mimetype != MIME["odt"]:
            return "mimetype is %r" % doc.mimetype
        return complete(flat, doc.tobytes(), first)
    if exc is None:
        if got is not None:
            bad = complete(flat, got, first)
        else:
            bad = check(doc)
        bad = bad and "reading reported success, but " + bad
    if not bad:
        # again without a fault
        try:
            doc = doc if kind == "reader" else go()
            bad = check(doc)
        except Exception as e:
            bad = "%s: %s" % (type(e).__name__, e)
        bad = bad and "the next attempt: " + bad
    with open(src, "rb") as f:
        if f.read() != data:
            bad = bad or "the source file was changed"
    if sorted(os.listdir(folder)) != ["src.odt"]:
        bad = bad or "files left behind: %r" % sorted(os.listdir(folder))
    return {"log": log, "exc": exc, "bad": bad and bad + (" (raised %s)" % exc if exc else ""),
            "outcome": exc and exc.split(":")[0] or "ok"}


# ---------------------------------------------------------------- serialisation

class Boom(Exception):
    pass


def serial_cases(tier):
    for kind in ("path", "bytes", "stream", "template", "new", "flat"):
        for part in ("meta", "styles", "content", "manifest", "member", "mimetype"):
            for target in ("same", "other", "fresh", "stream", "bytes"):
                for backup in (True, False):
                    for exc in ("Boom", "KeyboardInterrupt", "MemoryError"):
                        if kind == "flat" and part != "content":
                            continue
                        yield (kind, part, target, backup, exc)


def serial_run(case):
    kind, part, target, backup, exc = case
    exc = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[exc]

    def boom(*a, **k):
        raise exc("cannot be serialised")

    class Part(object):
        tobytes = boom

    with scratch() as folder:
        tgt = target if target in ("same", "other", "fresh") else "other"
        if kind in ("template", "new") and tgt == "same":
            tgt = "other"
        scenario = (kind, tgt, backup, True if tgt != "fresh" else False, 0, "save")
        doc, goal, items, snap = prepare(scenario, folder)
        if kind == "flat":
            undo = hook(doc, "tobytes", boom)
        elif part in ("meta", "styles", "content"):
            undo = hook(getattr(doc, part), "tobytes", boom)
        elif part == "manifest":
            undo = hook(doc.filemanager.manifest, "tobytes", boom)
        else:
            name = "mimetype" if part == "mimetype" else "Pictures/new.png"
            old = doc.mimetype
            doc.filemanager.register(name, Part())

            def undo():
                doc.filemanager.register(name, old if part == "mimetype" else b"picture")
        sink = io.BytesIO(b"previous content")
        failed = None
        try:
            if target == "stream":
                doc.saveas(sink)
            elif target == "bytes":
                doc.tobytes()
            else:
                act(doc, goal)
        except (Boom, MemoryError, KeyboardInterrupt) as e:
            failed = e
        need(failed is not None, "saving reported success without the part %s", part)
        failed = None
        need(sink.getvalue() == b"previous content", "the stream was changed")
        after = listing(folder)
        same("files", sorted(after), sorted(snap))
        for n in snap:
            need(after[n] == snap[n], "file %s was changed", n)
        same("document in memory", items_of(doc), items)
        undo()
        # everything works again
        if target == "stream":
            doc.saveas(sink)
            got = sink.getvalue()
        elif target == "bytes":
            got = doc.tobytes()
        else:
            act(doc, goal)
            got = listing(folder)[os.path.basename(goal)]
        bad = complete(kind, got, items)
        need(not bad, "saving again: %s", bad)
        extra = set(listing(folder)) - set(snap) - {os.path.basename(goal),
                                                    os.path.basename(goal) + ".bak"}
        need(not extra, "files left behind: %r", sorted(extra))
    return (kind, part, target)


def hook(obj, name, fn):
    setattr(obj, name, fn)

    def undo():
        delattr(obj, name)
    return undo


def place_cases(tier):
    """Targets which cannot be written at all."""
    for kind in ("path", "bytes", "new", "flat"):
        for where in ("no-folder", "file-as-folder", "empty-name", "none"):
            for times in (1, 2):
                yield (kind, where, times)


def place_run(case):
    kind, where, times = case
    with scratch() as folder:
        scenario = (kind, "other", True, True, 0, "save")
        doc, goal, items, snap = prepare(scenario, folder)
        os.mkdir(os.path.join(folder, "dir"))
        bad = {"no-folder": os.path.join(folder, "nowhere", "x.odt"),
               "folder": os.path.join(folder, "dir"),
               "file-as-folder": os.path.join(folder, "other.odt", "x.odt"),
               "none": None, "empty-name": os.path.join(folder, "dir") + os.sep}[where]
        for i in range(times):
            try:
                doc.saveas(bad)
            except Exception:
                pass
            else:
                raise Mismatch("saving as %r reported success" % (bad,))
        need(os.path.isdir(os.path.join(folder, "dir")), "the folder was removed")
        same("files in the folder", os.listdir(os.path.join(folder, "dir")), [])
        os.rmdir(os.path.join(folder, "dir"))
        need(listing(folder) == snap, "files were changed: %r", sorted(listing(folder)))
        same("document in memory", items_of(doc), items)
        doc.saveas(goal)
        b = complete(kind, listing(folder)[os.path.basename(goal)], items)
        need(not b, "saving again: %s", b)
    return case


def gone_cases(tier):
    """The source of a document disappears or the working directory changes between reading
    and saving."""
    for kind in ("path", "template", "bytes", "new", "plain"):
        for how in ("removed", "moved", "folder-moved", "chdir"):
            for target in ("same", "other", "stream", "bytes"):
                for before in (0, 1, 2):
                    for times in (1, 2):
                        yield (kind, how, target, before, times)


def gone_run(case):
    kind, how, target, before, times = case
    home = os.getcwd()
    with scratch() as top:
        folder = os.path.join(top, "a")
        os.mkdir(folder)
        os.mkdir(os.path.join(top, "b"))
        try:
            src = os.path.join(folder, "src.odt")
            if how == "chdir":      # names relative to the working directory
                os.chdir(folder)
                src = "src.odt"
            k = "path" if kind == "plain" else kind
            if kind == "plain":     # nothing but the parts the library manages
                items = ["one", "two"]
                d = source("new", items)
            else:
                items = ["one", "two"] if kind != "new" else []
                d = source(kind, items)
            if kind != "new":
                with open(src, "wb") as f:
                    f.write(d)
            if kind == "new":
                doc = ezodf.newdoc("odt", src)
                doc.meta["title"] = "t"
            elif kind == "template":
                doc = ezodf.newdoc("odt", "", template=src)
            else:
                doc = ezodf.opendoc(d if kind == "bytes" else src)
            here = src
            for i in range(before):
                doc.body.append(Paragraph("b%d" % i))
                items.append("b%d" % i)
                here = os.path.join(os.path.dirname(src), "s%d.odt" % i)
                doc.saveas(here)
            doc.body.append(Paragraph("last"))
            items.append("last")
            if how == "chdir":
                os.chdir(os.path.join(top, "b"))
            elif how == "folder-moved":
                os.rename(folder, os.path.join(top, "c"))
                os.mkdir(folder)
            else:
                for n in (src, here):
                    if os.path.exists(n):
                        if how == "moved":
                            os.rename(n, n + ".moved")
                        else:
                            os.remove(n)
            snap = everything(top)
            outcome = []
            for _ in range(times):
                goal = {"same": here, "other": os.path.join(top, "b", "other.odt")}.get(target)
                sink = io.BytesIO(b"previous")
                try:
                    if target == "stream":
                        doc.saveas(sink)
                        got = sink.getvalue()
                    elif target == "bytes":
                        got = doc.tobytes()
                    else:
                        doc.saveas(goal)
                        with open(goal, "rb") as f:
                            got = f.read()
                except Exception as e:
                    if how == "chdir" or kind in ("bytes", "new", "plain"):
                        raise       # everything is still there
                    same("the stream after an error", sink.getvalue(), b"previous")
                    need(everything(top) == snap, "files were changed by a failed save")
                    outcome.append(type(e).__name__)
                else:
                    # "plain" sources have no other members
                    bad = complete("new" if kind in ("plain", "new") else "path", got, items)
                    need(not bad, "saving reported success, but %s", bad)
                    outcome.append("ok")
            same("document in memory", items_of(doc), items)
        finally:
            os.chdir(home)
    return (kind, how, target, before, tuple(outcome))


def everything(folder):
    return {os.path.join(p, n): open(os.path.join(p, n), "rb").read()
            for p, _, names in os.walk(folder) for n in names}


CHECKS = [
    Check("P01", "fault_enumeration",
          [Faults("crashes", "checks.c_save", save_scenarios, crash_plans)],
          "every system call of a save that changes the file system is a crash point, every write "
          "is torn at several lengths; kinds of documents x targets x backup settings x older "
          "backups x previous saves",
          ["process-crash model: what was handed to the kernel survives; no power loss",
           "system calls are intercepted at the C library boundary (LD_PRELOAD)"]),
    Check("P02", "fault_enumeration",
          [Faults("save faults", "checks.c_save", save_scenarios, fault_plans),
           Faults("open faults", "checks.c_save", open_scenarios, fault_plans),
           Cases("serialisation", serial_cases, serial_run),
           Cases("places", place_cases, place_run), Cases("lost sources", gone_cases, gone_run)],
          "every intercepted call of a save or open fails once with every errno, all writes, changes or "
          "reads fail from every point on, every write is "
          "once short, every changing call is once interrupted; every part fails to serialise; "
          "every kind of unwritable target; sources which disappear before the save",
          ["one fault, or one kind of persistent fault, per execution", "lseek and fstat on open files do not fail"]),
]
