import struct

from hypothesis import strategies as st

from .. import edits, gen, structure, sut
from ..engine import Check
from ..spec import Rnd

OPT = gen.Opt(channels=3, patterns=3, arrangements=3, inserts=0, density=15, plugins=False,
              want={"arrangements"}, versions=gen.VERSIONS + ["12.9.1", "12.9.0", "12.9.1", "12.9.2"])


class Arrangements(Check):
    name = "arrangements"
    quick = 70
    thorough = 2000
    rule = ("generated project with up to 3 arrangements of up to 6 tracks and 30 playlist items of "
            "either record size; placement, references, all fields and lookups are compared with "
            "the reference before and after 0-8 edits and after reloading; non-trivial: at least "
            "2 playlist items or 2 tracks")

    def strategy(self):
        return st.tuples(edits.doc_and_ops(OPT, 0, 8, tags=("arrangement",)),
                         st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return edits.describe(case[0])

    def run(self, case):
        (doc, ops), seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        items = sum(len(a["items"]) for a in doc.arrangements)
        self.nontrivial = items >= 2 or sum(len(a["tracks"]) for a in doc.arrangements) >= 2
        self.tag("items", items)
        structure.check_arrangements(project, doc, rnd)
        fields = doc.by_tag("arrangement") + [f for f in doc.by_tag("project")
                                              if f.path[:1] == ("arrangements",)]
        sut.check_all(project, fields)
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        structure.check_arrangements(project, doc, rnd)
        again = sut.load(edits.check_saved(project, doc))
        structure.check_arrangements(again, doc, rnd)
        sut.check_all(again, fields, "after reloading, ")


class Refs(Check):
    name = "refs"
    quick = 60
    thorough = 1500
    rule = ("playlist items are pointed at other channels or patterns of the project; the item, the "
            "record and the reloaded project must follow and nothing else change; non-trivial: a "
            "reference changed")

    def strategy(self):
        return st.tuples(gen.docs(gen.Opt(channels=3, patterns=3, arrangements=2, inserts=0,
                                          density=15, plugins=False,
                                          want={"arrangements", "channels", "patterns"})),
                         st.lists(st.integers(0, 2 ** 32 - 1), min_size=1, max_size=4))

    def describe(self, case):
        return case[0].describe()

    def run(self, case):
        doc, seeds = case
        project = sut.load(doc.raw())
        places = [(i, t, k, it) for i, a in enumerate(doc.arrangements)
                  for t, tr in enumerate(a["tracks"]) for k, it in enumerate(tr["items"])]
        if not places:
            return
        for s in seeds:
            rnd = Rnd(s)
            i, t, k, it = rnd.pick(places)
            with sut.ok("finding a playlist item"):
                item = list(list(project.arrangements)[i].tracks)[t][k]
                if it["kind"] == "channel":
                    new = rnd.int(0, len(doc.channels) - 1)
                    target = list(project.channels)[new]
                    item.channel = target
                    got, idx = item.channel.iid, doc.channels[new]["iid"]
                    want = idx
                else:
                    new = rnd.int(0, len(doc.patterns) - 1)
                    target = list(project.patterns)[new]
                    item.pattern = target
                    got, want = item.pattern.iid, doc.patterns[new]["iid"]
                    idx = 20480 + want
            sut.require(got == want, "an item pointed at %d refers to %d", want, got)
            if new != it["ref"]:
                self.nontrivial = True
            it["ref"] = new
            pl = doc.arrangements[i]["playlist"]
            pl.data = pl.data[:it["off"] + 6] + struct.pack("<H", idx) + pl.data[it["off"] + 8:]
            self.tag("references set")
            structure.check_arrangements(project, doc, rnd)
        again = sut.load(edits.check_saved(project, doc))
        structure.check_arrangements(again, doc, Rnd(seeds[0]))


PARTS = [Arrangements, Refs]
