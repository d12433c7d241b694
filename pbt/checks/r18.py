"""Unknown content survives edits."""
import struct

from hypothesis import strategies as st

from .. import edits, gen, ref, spec, sut
from ..doc import Ev, VstEv
from ..engine import Check
from ..gen import Src, make_doc

LAYOUTS = {209: spec.L_DELAY, 212: spec.L_WRAPPER, 215: spec.L_PARAMS, 217: spec.L_PLSEL,
           218: spec.L_ENV, 219: spec.L_LEVELS, 221: spec.L_POLY, 228: spec.L_TRACKING,
           229: spec.L_ADJ, 236: spec.L_INSFLAGS, 238: spec.L_TRACK}


def wild(doc, rnd):
    """Adds unknown content everywhere it is allowed; -> ids of the changed events."""
    touched = set()
    for e in doc.events:
        lay = LAYOUTS.get(e.id)
        if lay and len(e.data) >= lay.size and rnd.chance(0.6):
            e.data += rnd.bytes(rnd.int(1, 20))
            touched.add(id(e))
        elif isinstance(e, VstEv):
            if not e.tail:
                e.recs.insert(rnd.int(0, len(e.recs)), [rnd.pick((3, 7, 33, 58, 99, 2 ** 31)),
                                                        rnd.bytes(rnd.int(0, 20))])
            for r in e.recs:
                if r[0] == 1 and len(r[1]) >= 12 or r[0] == 2 and len(r[1]) >= 23:
                    r[1] = r[1] + rnd.bytes(rnd.int(1, 9))
            touched.add(id(e))
    for f in doc.fields:
        c = f.codec
        if isinstance(c, spec.Enum) and f.place.present() and rnd.chance(0.4):
            lo, hi = (0, (1 << 8 * c.size - 1) - 1) if c.fmt[1].isupper() else (-99, 9999)
            v = rnd.int(lo, hi)
            if v not in c.names:
                f.place.put(struct.pack(c.fmt, v))
                touched.update(id(e) for e in f.place.evs())
        if c.flag and f.place.present() and rnd.chance(0.3):
            f.place.put(rnd.bytes(c.size))
            touched.update(id(e) for e in f.place.evs())
    start = doc.events.index(doc.meta[199]) + 1
    for _ in range(rnd.int(2, 12)):
        doc.events.insert(rnd.int(start, len(doc.events)), gen.unknown_event(rnd))
    return touched


@st.composite
def cases(draw):
    src = Src(draw)
    doc = make_doc(src, gen.Opt(channels=2, patterns=1, arrangements=1, inserts=2, density=50))
    touched = wild(doc, src.rnd())
    near = edits.draw_ops(src, doc, 1, 6,
                          pred=lambda f: any(id(e) in touched for e in f.place.evs()))
    return doc, near + edits.draw_ops(src, doc, 0, 4)


class Unknown(Check):
    name = "unknown"
    quick = 80
    thorough = 2500
    rule = ("generated project with unknown events, bytes beyond known payloads and sub-records, "
            "unknown sub-records, enum values and flag bits; 1-10 edits, mostly within the very "
            "payloads carrying them; the saved bytes must equal the reference; non-trivial: at "
            "least 2 edits")

    def strategy(self):
        return cases()

    def describe(self, case):
        return edits.describe(case)

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        self.nontrivial = len(ops) >= 2
        for op in ops:
            f, _ = edits.apply(project, find, doc, op)
            self.tag("edit " + f.tag)
        raw = edits.check_saved(project, doc)
        sut.check_all(sut.load(raw), doc.fields, "after reloading, ")


class Lists(Check):
    name = "lists"
    quick = 60
    thorough = 2000
    rule = ("patterns and playlists of random records, all unnamed bytes random, with an incomplete "
            "record at the end where legal; 1-8 edits of single items; the saved bytes must equal "
            "the reference; non-trivial: at least 2 edits")

    def strategy(self):
        return edits.doc_and_ops(
            gen.Opt(channels=1, patterns=3, arrangements=2, inserts=1, density=10, plugins=False,
                    want={"patterns", "arrangements", "channels"}), 1, 8,
            pred=lambda f: any(e.id in (223, 224, 225, 233, 234) for e in f.place.evs()))

    def describe(self, case):
        return edits.describe(case)

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        self.nontrivial = len(ops) >= 2
        for op in ops:
            edits.apply(project, find, doc, op)
        edits.check_saved(project, doc)
        self.tag("edits", len(ops))


class Every(Check):
    name = "every"
    quick = 60
    thorough = 1000
    rule = ("a small project around one channel, plugin, insert, pattern, arrangement or the "
            "metadata, with unknown content everywhere; every stored attribute (up to 60) assigned "
            "in random order, the file compared after every eighth; non-trivial: at least 5 "
            "assignments")

    def strategy(self):
        @st.composite
        def s(draw):
            doc, seed = draw(edits.focused())
            wild(doc, spec.Rnd(seed))
            return doc, seed
        return s()

    def describe(self, case):
        d = case[0].describe()
        d["seed"] = case[1]
        return d

    def run(self, case):
        doc, seed = case
        rnd = spec.Rnd(seed + 1)
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        pool = edits.editable(doc)
        rnd.r.shuffle(pool)
        pool = pool[:60]
        for n, i in enumerate(pool):
            edits.apply(project, find, doc, edits.Op(i, rnd.int(0, 2 ** 32 - 1), rnd.chance(0.3)))
            self.tag("edits")
            if n % 8 == 7:
                edits.check_saved(project, doc, "after editing %s" % doc.fields[i].label)
        self.nontrivial = len(pool) >= 5
        sut.check_all(sut.load(edits.check_saved(project, doc)), doc.fields, "after reloading, ")


PARTS = [Unknown, Lists, Every]
