"""Byte-exact round trip."""
import glob
import os

from hypothesis import strategies as st

from .. import flat, gen, ref, spec, sut, walk
from ..engine import Check


class Flat(Check):
    name = "flat"
    quick = 400
    thorough = 8000
    rule = ("flat event list over all 256 IDs with arbitrary legal payloads (short, long, odd "
            "flags, unterminated text, NaN floats), any format/PPQ/channel count, load and save; "
            "non-trivial: at least 5 events including a variable-size one")

    def strategy(self):
        return flat.files()

    def describe(self, case):
        return case.describe()

    def run(self, case):
        raw = case.raw()
        self.nontrivial = len(case.events) >= 5 and any(i >= 192 for i, _ in case.events)
        project = sut.load(raw)
        got = sut.saved(project)
        sut.require(got == raw, "round trip changed the file: %s", flat.where(got, raw))


class Structured(Check):
    name = "structured"
    quick = 60
    thorough = 1500
    rule = ("structured project (channels, patterns, arrangements, mixer, plugins), every "
            "attribute read between load and save; non-trivial: at least 40 events")

    def strategy(self):
        return gen.docs(gen.Opt(formats=True))

    def describe(self, doc):
        return doc.describe()

    def run(self, doc):
        raw = doc.raw()
        self.nontrivial = len(doc.events) >= 40
        project = sut.load(raw)
        find = sut.Finder(project)
        for f in doc.fields:
            sut.get(find, f)
        walk.touch(project)
        got = sut.saved(project)
        sut.require(got == raw, "reading attributes, then saving changed the file: %s",
                    flat.where(got, raw))


class Large(Check):
    name = "large"
    quick = 6
    thorough = 30
    rule = ("few or very many events with payloads up to 3 MiB (length prefixes of one to four "
            "bytes), load and save; non-trivial: over 60000 bytes")

    def strategy(self):
        size = st.sampled_from((65534, 65535, 65536, 2 ** 21 - 1, 2 ** 21, 2 ** 21 + 1, 3 << 20))
        ids = st.sampled_from((0, 33, 64, 127, 128, 191, 193, 195, 213, 212, 218, 230, 241, 255))
        return st.tuples(st.lists(st.tuples(ids, size), min_size=1, max_size=4),
                         st.lists(ids, min_size=1, max_size=20), st.sampled_from((1, 300, 2000)),
                         st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return "big %r, small %r times %d" % case[:3]

    def run(self, case):
        big, small, times, seed = case
        rnd = spec.Rnd(seed)

        def payload(id, n):
            if id < 192:
                return bytes([rnd.int(0, 255)]) * (1, 2, 4)[id // 64]
            if id < 208 or id == 241:
                return b"x" * (n - 1) + b"\0"
            return (rnd.bytes(61) * (n // 61 + 1))[:n]
        rows = [(199, b"9.0.0\0")] + [(i, payload(i, n)) for i, n in big]
        block = [(i, payload(i, 5)) for i in small]
        rows[1:1] = block
        rows += block * times
        raw = ref.build(0, rnd.int(0, 65535), 96, rows)
        self.nontrivial = len(raw) > 60000
        got = sut.saved(sut.load(raw))
        sut.require(got == raw, "round trip changed the file: %s", flat.where(got, raw))


def assets():
    out = []
    for pat in ("*.flp", "*/*", "*/*/*", "*.fst", "*.fsc"):
        for p in glob.glob(os.path.join(sut.REPO, "tests", "assets", pat)):
            if os.path.isfile(p):
                try:
                    ref.load(open(p, "rb").read())
                except ref.RefError:
                    continue
                out.append(os.path.relpath(p, sut.REPO))
    return sorted(set(out))


class Assets(Check):
    name = "assets"
    quick = 60
    thorough = 60
    workers = 1
    rule = "the repository's sample files, with all attributes read in between; all non-trivial"

    def strategy(self):
        files = assets()
        self.done = set()
        return st.sampled_from(files) if files else st.just(None)

    def run(self, name):
        if name is None or name in self.done:
            return
        self.done.add(name)
        self.nontrivial = True
        path = os.path.join(sut.REPO, name)
        raw = sut.read(path)
        project = sut.load(raw)
        walk.touch(project)
        got = sut.saved(project)
        sut.require(got == raw, "%s: %s", name, flat.where(got, raw))


PARTS = [Flat, Structured, Large, Assets]
ASSUMPTIONS = ["length prefixes are minimal", "text payloads are valid in the file's encoding",
               "plugin payloads of known native plugins are not shorter than their struct"]
