from hypothesis import strategies as st

from .. import edits, gen, structure, sut
from ..engine import Check
from ..spec import Rnd

OPT = gen.Opt(channels=6, patterns=1, arrangements=0, inserts=1, density=25, want={"channels"})


class Rack(Check):
    name = "rack"
    quick = 70
    thorough = 2000
    rule = ("generated project with up to 6 channels of all types in 1-3 display groups, followed "
            "by patterns and the mixer; order, class, group, ownership of events, lookups, slices, "
            "per-class listings and layer children are compared with the reference, before and "
            "after 0-4 edits (names included) and after reloading; non-trivial: at least 2 channels")

    def strategy(self):
        return st.tuples(edits.doc_and_ops(OPT, 0, 4, tags=("channel",)), st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return edits.describe(case[0])

    def run(self, case):
        (doc, ops), seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        self.nontrivial = len(doc.channels) >= 2
        structure.check_channels(project, doc, rnd)
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        structure.check_channels(project, doc, rnd)
        sut.check_all(project, [f for f in doc.by_tag("channel") if len(f.path) == 2])
        again = sut.load(edits.check_saved(project, doc))
        structure.check_channels(again, doc, rnd)
        self.tag("channels", len(doc.channels))
        self.tag("layers", sum(c["cls"] == "Layer" for c in doc.channels))


class Iids(Check):
    name = "iids"
    quick = 40
    thorough = 1000
    rule = ("a channel's internal ID or internal name is edited to an unused one; the rack must "
            "find it under the new ID only and the file must differ in that event only; "
            "non-trivial: at least 2 channels")

    def strategy(self):
        return st.tuples(gen.docs(OPT), st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return case[0].describe()

    def run(self, case):
        doc, seed = case
        rnd = Rnd(seed)
        # children refer to IDs: leave the referred channels alone
        kids = {k for c in doc.channels for k in c["children"]}
        pool = [i for i, c in enumerate(doc.channels) if c["iid"] not in kids]
        project = sut.load(doc.raw())
        if not pool:
            return
        self.nontrivial = len(doc.channels) >= 2
        i = rnd.pick(pool)
        taken = [c["iid"] for c in doc.channels]
        new = next(v for v in (rnd.int(0, 20479) for _ in range(999)) if v not in taken) \
            if not rnd.zero else next(v for v in range(20480) if v not in taken)
        f = next(f for f in doc.fields if f.path == ("channels", i) and f.attr == "iid")
        find = sut.Finder(project)
        edits.assign(find, f, new)
        f.place.put(new.to_bytes(2, "little"))
        doc.channels[i]["iid"] = new
        structure.check_channels(project, doc, rnd)
        structure.check_channels(sut.load(edits.check_saved(project, doc)), doc, rnd)


PARTS = [Rack, Iids]
