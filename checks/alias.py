"""Two objects for the same element: every access to a table, a list or a page
returns a new object, so user code holds several of them.  All of them have to
show the same state after every operation on any of them."""
import itertools

from lxml import etree

from ezodf.xmlns import wrap

from checks.sizes import TEXT
from lib.mc import Cases, Machine, same


class Alias(Machine):
    """The histories of `base`, where the operations are called alternately on
    two objects and the state is read from both after every operation."""

    def __init__(self, base, attr, quick=2, thorough=3, without=()):
        self.base, self.attr, self.depth = base, attr, (quick, thorough)
        self.without = without
        self.name = base.name + ", two objects"

    def configs(self, tier):
        d = self.depth[tier != "quick"]
        out = []
        for cfg, n, _ in self.base.configs(tier):
            if (cfg, min(n, d), False) not in out:
                out.append((cfg, min(n, d), False))
        return out

    def ops(self, cfg):
        return [o for o in self.base.ops(cfg) if o[0] not in self.without]

    def enabled(self, cfg, st, op):
        return self.base.enabled(cfg, st, op)

    def canon(self, st):
        return self.base.canon(st)

    def pair(self, st):
        x = getattr(st, self.attr)
        st.pair_ = [x, wrap(x.xmlnode)]

    def look(self, st):
        for x in st.pair_:
            setattr(st, self.attr, x)
            self.base.observe(st)

    def init(self, cfg):
        st = self.base.init(cfg)
        self.pair(st)
        st.turn_ = 1
        self.look(st)
        return st

    def step(self, st, op):
        x = st.pair_[st.turn_ % 2]
        setattr(st, self.attr, x)
        self.base.step(st, op)
        if getattr(st, self.attr) is not x:
            self.pair(st)
        else:
            st.turn_ += 1
        self.look(st)


class Keeper(object):
    """A collection which returns the objects which were returned first."""

    def __init__(self, coll, kept):
        self.coll, self.kept = coll, kept

    def first(self, x):
        return self.kept.setdefault(x.xmlnode, x)

    def __getitem__(self, key):
        return self.first(self.coll[key])

    def __getattr__(self, name):
        return getattr(self.coll, name)

    def __setitem__(self, key, value):
        self.coll[key] = value

    def __contains__(self, key):
        return key in self.coll

    def __len__(self):
        return len(self.coll)

    def itercells(self):
        for pos, c in self.coll.itercells():
            yield pos, self.first(c)


def keeping(base, method, quick, thorough, *args):
    """The histories of the machine class `base`; the objects (of the collection
    which `method` returns) that were read at first are read again after every
    operation.  Every second operation is called on them."""

    class Kept(base):
        def configs(self, tier):
            d = thorough if tier != "quick" else quick
            out = []
            for cfg, n, _ in base.configs(self, tier):
                if (cfg, min(n, d), False) not in out:
                    out.append((cfg, min(n, d), False))
            return out

        def init(self, cfg):
            st = base.init(self, cfg)
            st.kept_, st.coll_, st.read_, st.turn_ = {}, {}, True, 0
            self.look(st)
            return st

        def look(self, st):
            for st.read_ in (True, False):
                base.observe(self, st)

        def step(self, st, op):
            st.turn_ += 1
            st.read_ = st.turn_ % 2 == 0
            base.step(self, st, op)
            self.look(st)

    def coll(self, st):
        new = getattr(base, method)(self, st)
        if not getattr(st, "read_", False):
            return new
        doc = st.doc
        if doc not in st.coll_:      # kept as well: the collection itself
            st.coll_.clear()
            st.coll_[doc] = new
            st.kept_.clear()
        return Keeper(st.coll_[doc], st.kept_)

    setattr(Kept, method, coll)
    kept = Kept(*args)
    kept.name += ", kept objects"
    return kept


def kept_spans(base):
    class KeptSpans(base):
        name = base.name + ", kept cells"

        def configs(self, tier):
            return [((2, 3), 2, False)] if tier == "quick" else \
                [((3, 3), 2, False), ((2, 3), 3, False)]

        def init(self, cfg):
            st = base.init(self, cfg)
            st.table_, st.kept_ = st.t, {}
            self.look(st)
            return st

        def look(self, st):
            for st.t in (Keeper(st.table_, st.kept_), st.table_):
                base.observe(self, st)

        def step(self, st, op):
            base.step(self, st, op)
            self.look(st)
    return KeptSpans()


# ---------------------------------------------------------------- texts

PIECES = ("", "a", " ", "\n", "\t", "b  c", "<&>")


def text_cases(tier):
    for kind in sorted(set(TEXT) - {"appended"}):
        for seq in itertools.product(PIECES, repeat=3 if tier == "quick" else 4):
            yield (kind,) + seq


def text_run(case):
    """Text appended alternately through two objects for the same element."""
    kind, text = case[0], case[1]
    x = TEXT[kind](text)
    objs = [x, wrap(x.xmlnode)]
    if kind == "item":           # the text belongs to the paragraph
        if len(x) == 0:
            return None
        objs = [x[0], wrap(x[0].xmlnode)]
    for n, piece in enumerate(case[2:]):
        for o in objs:
            same("length before appending", o.textlen, len(o.plaintext()))
            same("text before appending", o.plaintext(), text)
        objs[(n + 1) % 2].append_text(piece)
        text += piece
        for o in objs + [wrap(etree.fromstring(etree.tostring(objs[0].xmlnode)))]:
            same("text", o.plaintext(), text)
            same("length", o.textlen, len(text))
    return case


TEXTS = Cases("two objects", text_cases, text_run)
