"""Flags."""
from hypothesis import strategies as st

from .. import edits, gen, spec, sut
from ..doc import Field
from ..engine import Check
from ..gen import Src


def flag(f):
    return f.codec.flag


@st.composite
def cases(draw):
    src = Src(draw)
    doc = gen.make_doc(src, gen.Opt(channels=2, patterns=1, arrangements=0, inserts=2, density=75,
                                    unknown=False, meta=False))
    pool = edits.editable(doc, pred=flag)
    ops = []
    if pool:
        for _ in range(src.int(1, 14)):
            if ops and src.chance(60):
                ev = doc.fields[src.pick(ops)[0]].place.evs()[0]
                near = [i for i in pool if doc.fields[i].place.evs()[0] is ev]
                i = src.pick(near)
            else:
                i = src.pick(pool)
            ops.append((i, src.chance(50), src.int(1, 2)))
    return doc, ops


class Flags(Check):
    name = "flags"
    quick = 100
    thorough = 2500
    rule = ("generated project with random flag words (known and unknown bits), all flags read, "
            "1-14 flags set to True or False once or twice; siblings and raw words compared; "
            "non-trivial: two or more flags of one word were set")

    def strategy(self):
        return cases()

    def describe(self, case):
        doc, ops = case
        d = doc.describe()
        d["sets"] = [(doc.fields[i].label, v, n) for i, v, n in ops]
        return d

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        flags = [f for f in doc.fields if f.codec.flag]
        find = sut.check_all(project, flags)
        words = {}
        for i, value, times in ops:
            f = doc.fields[i]
            words.setdefault(id(f.place.evs()[0]), set()).add(i)
            for _ in range(times):
                edits.assign(find, f, value)
            f.place.put(f.codec.put(value, f.place.get()))
            ev = f.place.evs()[0]
            for g in flags:
                if g.place.evs()[0] is ev:
                    sut.check_read(find, g, "after %s = %r, " % (f.label, value))
            self.tag("set")
        self.nontrivial = any(len(s) > 1 for s in words.values())
        raw = edits.check_saved(project, doc)
        sut.check_all(sut.load(raw), flags, "after reloading, ")


class Words(Check):
    name = "words"
    quick = 60
    thorough = 1500
    rule = ("a small project around one part; every flag of it is set twice, to random values in "
            "random order, with all flags read after each; non-trivial: at least 4 assignments")

    def strategy(self):
        return edits.focused()

    def describe(self, case):
        d = case[0].describe()
        d["seed"] = case[1]
        return d

    def run(self, case):
        doc, seed = case
        rnd = spec.Rnd(seed)
        project = sut.load(doc.raw())
        flags = [f for f in doc.fields if f.codec.flag]
        find = sut.check_all(project, flags)
        pool = edits.editable(doc, pred=flag) * 2
        rnd.r.shuffle(pool)
        self.nontrivial = len(pool) >= 4
        for i in pool[:60]:
            f = doc.fields[i]
            value = rnd.chance(0.5)
            edits.assign(find, f, value)
            f.place.put(f.codec.put(value, f.place.get()))
            for g in flags:
                sut.check_read(find, g, "after %s = %r, " % (f.label, value))
        sut.check_all(sut.load(edits.check_saved(project, doc)), flags, "after reloading, ")


class Order(Check):
    name = "order"
    quick = 40
    thorough = 800
    rule = ("the same set of flag assignments applied in two orders to two loads of the file gives "
            "the same file; non-trivial: at least 2 assignments")

    def strategy(self):
        return st.tuples(cases(), st.randoms(use_true_random=False)).map(
            lambda t: (t[0][0], t[0][1], _perm(len(t[0][1]), t[1])))

    def describe(self, case):
        doc, ops, perm = case
        d = doc.describe()
        d["sets"] = [(doc.fields[i].label, v) for i, v, n in ops]
        d["order"] = perm
        return d

    def run(self, case):
        doc, ops, perm = case
        last = {}
        for i, v, n in ops:
            last[i] = v
        items = sorted(last.items())
        order = [items[k] for k in perm if k < len(items)]
        self.nontrivial = len(items) >= 2
        out = []
        for seq in (items, order):
            project = sut.load(doc.raw())
            find = sut.Finder(project)
            for i, v in seq:
                edits.assign(find, doc.fields[i], v)
            out.append(sut.saved(project))
        sut.require(out[0] == out[1], "order of setting flags matters: %s", sut.diff(*out))


def _perm(n, rnd):
    p = list(range(n))
    rnd.shuffle(p)
    return p


PARTS = [Flags, Words, Order]
