"""Saving is all-or-nothing, repeatable and leaves the project alone."""
import os
import pathlib

from hypothesis import strategies as st

from .. import edits, gen, spec, sut, walk
from ..engine import Check
from ..gen import Src, make_doc
from ..spec import Rnd


def bad_values(doc, field):
    """Values of the right kind which cannot be stored in this field."""
    c = field.codec
    if c.flag or isinstance(c, (spec.Bool, spec.Enum, spec.ReverbType, spec.Key, spec.Color)):
        return []
    if isinstance(c, spec.Int):
        return [c.hi + 1, c.lo - 1, 1 << 70, -(1 << 70), "text"]
    if isinstance(c, (spec.Pair,)):
        return [(c.one.hi + 1, 0), (0, c.one.lo - 1), (1 << 70, 1 << 70)]
    if isinstance(c, spec.F64):
        return ["text"]
    if isinstance(c, spec.F32):
        return [1e300, -1e200, "text"]
    if isinstance(c, spec.LogNormal):
        return [1.5, -0.25, 1e9]
    if isinstance(c, spec.Log2):
        return [0.0, -1.0, -1e9]
    if isinstance(c, (spec.PathText, spec.Licensee)):
        return []
    if isinstance(c, spec.Text):
        return ["\ud800", "ab\udfffcd"] if c.uni else ["\xe9", "\u6f22", "plain\xff", "\ud800"]
    return []


@st.composite
def bad_cases(draw, opt):
    src = Src(draw)
    doc = make_doc(src, opt)
    ops = edits.draw_ops(src, doc, 0, 3)
    bad = edits.draw_ops(src, doc, 1, 1, pred=lambda f: bool(bad_values(doc, f)))
    return doc, ops, bad, src.pick(("field", "field", "field", "count")), src.seed()


NAMES = ("a.flp", "b.flp", "c.fst", "a", "a.flp.bak", "two words.flp", " spaces ", "UPPER.FLP",
         ".hidden", "many.dots.in.flp", "a~", "A.FLP", "50%s.flp", "a.tmp")


def as_given(rnd, path):
    """A path in one of the forms which save and parse take."""
    if rnd.chance(0.3):
        path = os.path.relpath(path)
    return pathlib.Path(path) if rnd.chance(0.5) else path


def listing(d):
    return {n: sut.read(os.path.join(d, n)) for n in sorted(os.listdir(d))}


def fresh_dir(name):
    import shutil
    d = os.path.join(sut.scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


class Failing(Check):
    name = "failing"
    quick = 120
    thorough = 3000
    rule = ("generated project, 0-3 legal edits, then one value that cannot be stored (integer out "
            "of range, text outside the file's encoding, ratio outside 0-1, channel count over "
            "65535); saving must raise and leave the destination folder as it was; after putting "
            "a legal value back saving works; non-trivial: the value was accepted by the "
            "assignment, so the save itself had to fail")

    def strategy(self):
        return bad_cases(gen.Opt(channels=2, patterns=1, arrangements=1, inserts=1))

    def describe(self, case):
        doc, ops, bad, kind, seed = case
        d = doc.describe()
        d["bad"] = doc.fields[bad[0].field].label if kind == "field" and bad else "channel count"
        return d

    def run(self, case):
        doc, ops, bad, kind, seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        if kind == "field" and bad:
            f = doc.fields[bad[0].field]
            good = sut.get(find, f)
            value = rnd.pick(bad_values(doc, f))
            label = "%s = %r" % (f.label, value)
            owner = find(f.path)
            set_, undo = (lambda: setattr(owner, f.attr, value)), \
                (lambda: setattr(owner, f.attr, good))
        else:
            value = rnd.pick((65536, 70000, 1 << 40))
            good = project.channel_count
            label = "channel_count = %d" % value
            set_, undo = (lambda: setattr(project, "channel_count", value)), \
                (lambda: setattr(project, "channel_count", good))
        d = fresh_dir("dest")
        there = rnd.pick((None, b"", b"old", doc.raw(), rnd.bytes(3000)))
        path = os.path.join(d, rnd.pick(("out.flp",) + NAMES))
        if there is not None:
            with open(path, "wb") as fp:
                fp.write(there)
        before = listing(d)
        try:
            set_()
        except Exception:
            # refused at once, which is fine as well: nothing may have changed
            edits.check_saved(project, doc, "after the refused %s" % label)
            self.tag("refused by the assignment")
            return
        self.nontrivial = True
        self.tag("save had to fail")
        try:
            sut.pyflp.save(project, as_given(rnd, path))
        except Exception:
            pass
        else:
            raise sut.Violation("saving with %s, which cannot be stored, was accepted" % label)
        after = listing(d)
        sut.require(after == before, "a save that failed (%s) left the folder as %r, before %r",
                    label, {k: len(v) for k, v in after.items()},
                    {k: len(v) for k, v in before.items()})
        with sut.ok("putting the old value back after %s" % label):
            undo()
        edits.check_saved(project, doc, "after undoing %s" % label)


@st.composite
def good_cases(draw, opt):
    src = Src(draw)
    doc = make_doc(src, opt)
    return doc, edits.draw_ops(src, doc, 0, 3), [src.seed() for _ in range(src.int(1, 4))]


class Good(Check):
    name = "good"
    quick = 70
    thorough = 2000
    rule = ("generated project with 0-3 edits saved 1-4 times to new, existing (shorter, longer, "
            "same) files of various names or over its own source, as absolute or relative str or "
            "Path; each file must equal the "
            "reference, the project must read the same afterwards and other files must be left "
            "alone; non-trivial: at least 2 saves")

    def strategy(self):
        return good_cases(gen.Opt(channels=2, patterns=1, arrangements=1, inserts=1))

    def describe(self, case):
        doc, ops, seeds = case
        d = edits.describe((doc, ops))
        d["saves"] = len(seeds)
        return d

    def run(self, case):
        doc, ops, seeds = case
        d = fresh_dir("saves")
        given = Rnd(seeds[0] + 1)
        source = given.pick(("source.flp", "source", "the source.FLP", "source.flp.bak"))
        src = os.path.join(d, source)
        raw = doc.raw()
        with open(src, "wb") as fp:
            fp.write(raw)
        stamp = os.stat(src).st_mtime_ns
        with sut.ok("parse"):
            project = sut.pyflp.parse(as_given(given, src))
        sut.require(sut.read(src) == raw and os.stat(src).st_mtime_ns == stamp,
                    "loading modified the source file")
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        want = doc.raw()
        reads = walk.snapshot(project)
        files = {source: raw}
        self.nontrivial = len(seeds) >= 2
        for s in seeds:
            rnd = Rnd(s)
            name = rnd.pick((source,) + NAMES) if rnd.chance(0.7) else rnd.pick((source, "a.flp"))
            path = os.path.join(d, name)
            if name != source and rnd.chance(0.5):
                with open(path, "wb") as fp:
                    fp.write(rnd.pick((b"", b"x", want[:-1], want + b"tail", want[::-1],
                                       rnd.bytes(6000))))
            with sut.ok("saving to %s" % name):
                sut.pyflp.save(project, as_given(rnd, path))
            files[name] = want
            self.tag("saves")
            got = listing(d)
            sut.require(set(got) == set(files), "files %r, expected %r", sorted(got), sorted(files))
            for n, b in files.items():
                sut.require(got[n] == b, "%s after saving to %s: %s", n, name, sut.diff(got[n], b))
        diff = walk.difference(reads, walk.snapshot(project))
        sut.require(diff is None, "saving changed what is read: %s", diff)
        for f in doc.fields:
            sut.check_read(find, f, "after saving, ")
        sut.check_all(project, doc.fields, "after saving (fresh handles), ")


PARTS = [Failing, Good]
