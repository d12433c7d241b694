"""Edits persist and change nothing else."""
from hypothesis import strategies as st

from .. import edits, gen, spec, sut, walk
from ..engine import Check


class Edits(Check):
    name = "edits"
    quick = 70
    thorough = 1800
    rule = ("generated project, a sequence of 1-12 attribute assignments across it (through old "
            "or fresh handles, some fields repeatedly), saves in between; the saved bytes must "
            "equal the reference document's and reload with every value; non-trivial: at least 2 "
            "assignments")

    def strategy(self):
        return edits.doc_and_ops(gen.Opt(channels=2, patterns=2, arrangements=1, inserts=2), 1, 12)

    def describe(self, case):
        return edits.describe(case)

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        self.nontrivial = len(ops) >= 2
        touched = []
        for k, op in enumerate(ops):
            f, value = edits.apply(project, find, doc, op)
            touched.append(f)
            self.tag("edit " + f.tag)
            if op.seed % 5 == 0:
                edits.check_saved(project, doc, "after edit %d (%s)" % (k, f.label))
        raw = edits.check_saved(project, doc)
        for f in touched:
            sut.check_read(sut.Finder(project), f, "after all edits, ")
        again = sut.load(raw)
        sut.check_all(again, doc.fields, "after reloading, ")
        d = walk.difference(walk.snapshot(project), walk.snapshot(again), floats=False)
        sut.require(d is None, "the edited project reads differently from its saved file: %s", d)


class Single(Check):
    name = "single"
    quick = 60
    thorough = 1500
    rule = ("generated project, every tenth stored attribute assigned once, each followed by a "
            "whole-file comparison; non-trivial: at least 5 assignments")

    def strategy(self):
        return st.tuples(gen.docs(gen.Opt(channels=2, patterns=1, arrangements=1, inserts=1)),
                         st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        d = case[0].describe()
        d["seed"] = case[1]
        return d

    def run(self, case):
        doc, seed = case
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        pool = edits.editable(doc)
        step = 10
        picked = pool[seed % step::step]
        self.nontrivial = len(picked) >= 5
        for i in picked:
            edits.apply(project, find, doc, edits.Op(i, seed + i, False))
            edits.check_saved(project, doc, "after editing %s" % doc.fields[i].label)
            self.tag("edits")


class Every(Check):
    name = "every"
    quick = 120
    thorough = 1500
    rule = ("a small project around one channel, plugin, insert, pattern, arrangement or the "
            "metadata, complete in most cases; every stored attribute (up to 80) is assigned once "
            "in random order, some twice, the file compared after every eighth; non-trivial: at "
            "least 5 assignments")

    def strategy(self):
        return edits.focused()

    def describe(self, case):
        d = case[0].describe()
        d["seed"] = case[1]
        return d

    def run(self, case):
        doc, seed = case
        rnd = spec.Rnd(seed)
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        pool = edits.editable(doc)
        rnd.r.shuffle(pool)
        pool = pool[:80] + [rnd.pick(pool) for _ in range(4) if pool]
        for n, i in enumerate(pool):
            edits.apply(project, find, doc, edits.Op(i, rnd.int(0, 2 ** 32 - 1), rnd.chance(0.3)))
            self.tag("edits")
            if n % 8 == 7:
                edits.check_saved(project, doc, "after editing %s" % doc.fields[i].label)
        self.nontrivial = len(pool) >= 5
        sut.check_all(project, doc.fields, "after all edits, ")
        sut.check_all(sut.load(edits.check_saved(project, doc)), doc.fields, "after reloading, ")


PARTS = [Edits, Single, Every]
ASSUMPTIONS = ["payload fields hold canonical encodings (booleans 0/1, whole-percent heights)"]
