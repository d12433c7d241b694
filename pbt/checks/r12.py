from hypothesis import strategies as st

from .. import edits, gen, structure, sut
from ..engine import Check
from ..spec import Rnd

OPT = gen.Opt(channels=2, patterns=6, arrangements=1, inserts=0, density=15, plugins=False,
              want={"patterns"})


class Patterns(Check):
    name = "patterns"
    quick = 70
    thorough = 2000
    rule = ("generated project with up to 6 patterns split into 1-3 blocks between channels; all "
            "pattern, note, controller and marker fields and the lookups are compared with the "
            "reference before and after 0-8 edits and after reloading; non-trivial: at least 2 "
            "patterns or 3 notes")

    def strategy(self):
        return st.tuples(edits.doc_and_ops(OPT, 0, 8, tags=("pattern",)), st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return edits.describe(case[0])

    def run(self, case):
        (doc, ops), seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        self.nontrivial = len(doc.patterns) >= 2 or sum(len(p["notes"]) for p in doc.patterns) >= 3
        self.tag("patterns", len(doc.patterns))
        self.tag("split patterns", sum(len(p["blocks"]) > 1 for p in doc.patterns))
        structure.check_patterns(project, doc, rnd)
        fields = doc.by_tag("pattern")
        sut.check_all(project, fields)
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        structure.check_patterns(project, doc, rnd)
        again = sut.load(edits.check_saved(project, doc))
        structure.check_patterns(again, doc, rnd)
        sut.check_all(again, fields, "after reloading, ")


class Iids(Check):
    name = "iids"
    quick = 40
    thorough = 1000
    rule = ("a pattern's ID is edited to an unused one: every block of it moves, nothing else; "
            "non-trivial: the pattern is stored in several blocks or there are several patterns")

    def strategy(self):
        return st.tuples(gen.docs(gen.Opt(channels=2, patterns=4, arrangements=0, inserts=0,
                                          density=15, want={"patterns"})),
                         st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return case[0].describe()

    def run(self, case):
        doc, seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        i = rnd.int(0, len(doc.patterns) - 1)
        p = doc.patterns[i]
        self.nontrivial = len(p["blocks"]) > 1 or len(doc.patterns) > 1
        taken = [q["iid"] for q in doc.patterns]
        new = next(v for v in range(1, 99) if v not in taken) if rnd.zero else \
            next(v for v in (rnd.int(1, 65535) for _ in range(999)) if v not in taken)
        find = sut.Finder(project)
        with sut.ok("patterns[%d].iid = %d" % (i, new)):
            find(("patterns", i)).iid = new
        for b in p["blocks"]:
            b[0].data = new.to_bytes(2, "little")
        p["iid"] = new
        structure.check_patterns(project, doc, rnd)
        again = sut.load(edits.check_saved(project, doc))
        structure.check_patterns(again, doc, rnd)
        sut.check_all(again, doc.by_tag("pattern"), "after reloading, ")


PARTS = [Patterns, Iids]
