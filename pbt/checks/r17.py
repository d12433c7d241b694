"""Project metadata."""
import datetime
import itertools
import struct

from hypothesis import strategies as st

from .. import edits, gen, ref, spec, sut
from ..doc import Doc, Ev
from ..engine import Check
from ..gen import Src, make_doc
from ..spec import Rnd
from .r09 import tempo_limit

EPOCH = datetime.datetime(1899, 12, 30)
OPT = gen.Opt(channels=1, patterns=1, arrangements=1, inserts=1, density=10, plugins=False,
              formats=True)


class Header:
    """Reference for the header and the events several attributes share."""

    def __init__(self, doc):
        self.doc = doc

    def tempo(self):
        g = self.doc.meta.get
        if g(156):
            return struct.unpack("<I", g(156).data)[0] / 1000
        if g(66):
            t = struct.unpack("<H", g(66).data)[0]
            return t + struct.unpack("<H", g(93).data)[0] / 1000 if g(93) else t
        return None


def check_meta(project, doc, when=""):
    with sut.ok("header attributes"):
        got = (int(project.format), project.ppq, project.channel_count)
    want = (doc.fmt, doc.ppq, doc.nchan)
    sut.require(got == want, "%sformat, PPQ and channel count read as %r, stored are %r", when, got,
                want)
    with sut.ok("tempo"):
        t = project.tempo
    w = Header(doc).tempo()
    sut.require(t is None if w is None else spec.close(t, w, 1e-12),
                "%stempo reads as %r, stored is %r", when, t, w)
    parts = [int(x) for x in doc.meta[199].data.rstrip(b"\0").decode().split(".")]
    with sut.ok("version"):
        v = project.version
    full = tuple(parts[:3] + [0] * (3 - len(parts))) + (parts[3] if len(parts) == 4 else None,)
    sut.require((v.major, v.minor, v.patch, v.build) == full, "%sversion reads as %r, stored is %r",
                when, v, full)
    ts = doc.meta.get(237)
    with sut.ok("created_on, time_spent"):
        c, s = project.created_on, project.time_spent
    if ts is None:
        sut.require(c is None and s is None, "%stimestamps %r %r although none are stored", when, c, s)
    else:
        a, b = (struct.unpack_from("<d", ts.data, o)[0] if len(ts.data) >= o + 8 else None
                for o in (0, 8))
        tol = datetime.timedelta(microseconds=2)
        sut.require(c is None if a is None else
                    abs(c - (EPOCH + datetime.timedelta(days=a))) <= tol,
                    "%screated_on reads as %r, stored are %r days", when, c, a)
        sut.require(s is None if b is None else abs(s - datetime.timedelta(days=b)) <= tol,
                    "%stime_spent reads as %r, stored are %r days", when, s, b)
    sut.check_all(project, doc.by_tag("project"), when)


@st.composite
def cases(draw):
    src = Src(draw)
    doc = make_doc(src, OPT)
    script = []
    for _ in range(src.int(0, 8)):
        k = src.pick(("field", "field", "field", "ppq", "count", "tempo", "version", "format"))
        if k == "field":
            script += [(k, op) for op in edits.draw_ops(src, doc, 1, 1, tags=("project",))]
        else:
            script.append((k, src.seed()))
    return doc, script


class Metadata(Check):
    name = "metadata"
    quick = 110
    thorough = 3000
    rule = ("generated project of any format and generation; metadata and header attributes are "
            "compared with the reference before and after 0-8 assignments (fields, PPQ, channel "
            "count, format, tempo, version) and after reloading; non-trivial: at least 2 "
            "assignments")

    def strategy(self):
        return cases()

    def describe(self, case):
        d = case[0].describe()
        d["edits"] = [k if k != "field" else case[0].fields[o.field].label for k, o in case[1]]
        return d

    def run(self, case):
        doc, script = case
        project = sut.load(doc.raw())
        check_meta(project, doc)
        find = sut.Finder(project)
        self.nontrivial = len(script) >= 2
        for k, arg in script:
            self.tag("set " + k)
            if k == "field":
                edits.apply(project, find, doc, arg)
                continue
            rnd = Rnd(arg)
            with sut.ok("setting " + k):
                if k == "ppq":
                    doc.ppq = project.ppq = rnd.pick(ref.PPQS)
                elif k == "count":
                    doc.nchan = project.channel_count = rnd.int(0, 65535)
                elif k == "format":
                    doc.fmt = rnd.pick(sorted(ref.FORMATS))
                    project.format = type(project.format)(doc.fmt)
                elif k == "tempo":
                    self.tempo(project, doc, rnd)
                elif k == "version":
                    self.version(project, doc, rnd)
            check_meta(project, doc, "after setting %s, " % k)
        check_meta(project, doc, "after all edits, ")
        again = sut.load(edits.check_saved(project, doc))
        check_meta(again, doc, "after reloading, ")

    def tempo(self, project, doc, rnd):
        g = doc.meta.get
        if not (g(156) or g(66)):
            return
        v = current(doc)
        top = int(tempo_limit(v) * 1000)
        whole = v[:3] < (3, 4, 0) or not (g(156) or g(93))
        m = rnd.pick((10000, top, rnd.int(10000, top)))
        if whole:
            m -= m % 1000
        project.tempo = m // 1000 if whole else m / 1000
        if g(156):
            g(156).data = struct.pack("<I", m)
        if g(66):
            g(66).data = struct.pack("<H", m // 1000)
        if g(93):
            g(93).data = struct.pack("<H", m % 1000)

    def version(self, project, doc, rnd):
        # stay within the encoding of the text and the playlist numbering of the file
        parts = list(current(doc)[:3])
        parts[2] = rnd.int(0, 0 if parts[:2] == [12, 9] else 9)
        if parts[:2] == [12, 9]:
            parts[2] = current(doc)[2]
        if rnd.chance(0.6):
            parts.append(rnd.pick((0, 1, 2576, rnd.int(0, 9999), rnd.int(0, 2 ** 32 - 1))))
        if tuple(parts[:3]) >= (3, 4, 0) or doc.version < (3, 4, 0):
            pass
        form = rnd.pick(("text", "tuple", "object"))
        if form == "text":
            project.version = ".".join(map(str, parts))
        elif form == "tuple":
            project.version = tuple(parts)
        else:
            project.version = type(project.version)(*parts)
        doc.meta[199].data = ".".join(map(str, parts)).encode() + b"\0"
        if len(parts) == 4 and 159 in doc.meta:
            doc.meta[159].data = struct.pack("<I", parts[3])


def current(doc):
    p = [int(x) for x in doc.meta[199].data.rstrip(b"\0").decode().split(".")]
    return tuple(p + [0] * (3 - len(p)))


class Limits(Check):
    name = "limits"
    quick = 150
    thorough = 5000
    rule = ("a tempo near a limit is assigned in a file of a version near a boundary: accepted "
            "exactly within the limits of that version, else refused with the documented error; "
            "non-trivial: all")

    def strategy(self):
        ver = st.sampled_from(["1.4.1", "1.4.2", "1.4.3", "1.4.2.7", "1.3.9", "3.3.9", "3.4.0",
                               "3.3.9.99", "10.9.9", "10.0.9.12", "11.0.0", "11.0.0.3", "11.0.1",
                               "12.0.0", "20.8.4.2576", "2.0.1", "0.9.9"])
        val = st.one_of(
            st.sampled_from([9, 10, 11, 521, 522, 523, 998, 999, 1000, 9.999, 10.0, 521.999, 522.0,
                             522.001, 999.0, 999.001, 998.999, 0, -1, 120, 120.5]),
            st.integers(-5, 1100), st.floats(5.0, 1100.0))
        return st.tuples(ver, val, st.sampled_from(["new", "old", "oldfine", "both"]))

    def run(self, case):
        version, value, gen_ = case
        self.nontrivial = True
        v = tuple(map(int, version.split(".")))
        evs = [(199, version.encode() + b"\0")]
        if gen_ in ("new", "both"):
            evs.append((156, struct.pack("<I", 120000)))
        if gen_ != "new":
            evs.append((66, struct.pack("<H", 120)))
            if gen_ != "old":
                evs.append((93, struct.pack("<H", 0)))
        raw = ref.build(0, 0, 96, evs)
        project = sut.load(raw)
        top = tempo_limit(v)
        if isinstance(value, float) and v[:3] < (3, 4, 0):
            sut.refused("tempo %r in version %s" % (value, version), TypeError,
                        lambda: setattr(project, "tempo", value))
        elif not 10 <= value <= top:
            sut.refused("tempo %r in version %s" % (value, version), ValueError,
                        lambda: setattr(project, "tempo", value))
        else:
            with sut.ok("tempo %r in version %s" % (value, version)):
                project.tempo = value
            res = 0.5 if gen_ == "old" and isinstance(value, float) else 0.0005
            if gen_ == "old" and isinstance(value, float):
                sut.require(abs(project.tempo - value) < 1, "tempo %r reads as %r", value,
                            project.tempo)
            else:
                sut.require(abs(project.tempo - value) <= res + 1e-9, "tempo %r reads as %r", value,
                            project.tempo)
            self.tag("accepted")
            return
        self.tag("refused")
        sut.require(project.tempo == 120 and sut.saved(project) == raw,
                    "a refused tempo changed the project")


class Order(Check):
    name = "order"
    quick = 60
    thorough = 2000
    rule = ("versions with and without a build number: comparisons of all pairs agree with the "
            "order of their numbers (no build first) and sorting is total; non-trivial: at least "
            "two versions differ only in their build")

    def strategy(self):
        part = st.sampled_from([0, 1, 1, 20])
        build = st.sampled_from([None, 0, 1, 2576, None, 0])
        return st.lists(st.tuples(part, part, part, build), min_size=3, max_size=9)

    def run(self, case):
        from pyflp.types import FLVersion
        key = [(a, b, c, -1 if d is None else d) for a, b, c, d in case]
        with sut.ok("making versions"):
            vs = [FLVersion(a, b, c) if d is None else FLVersion(a, b, c, d) for a, b, c, d in case]
        self.nontrivial = any(x[:3] == y[:3] and x != y for x, y in itertools.combinations(case, 2))
        for (x, kx), (y, ky) in itertools.product(zip(vs, key), repeat=2):
            with sut.ok("comparing %s and %s" % (x, y)):
                got = (x < y, x <= y, x == y, x != y, x >= y, x > y)
            want = (kx < ky, kx <= ky, kx == ky, kx != ky, kx >= ky, kx > ky)
            sut.require(got == want, "comparing %s with %s gives %r, expected %r", x, y, got, want)
        with sut.ok("sorting versions"):
            s = [str(v) for v in sorted(vs)]
        w = [str(v) for _, v in sorted(zip(key, vs), key=lambda t: t[0])]
        sut.require(s == w, "sorted versions are %r, expected %r", s, w)


PARTS = [Metadata, Limits, Order]
