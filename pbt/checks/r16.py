"""Conversions between stored and user-facing values are inverses."""
import math
import struct

from hypothesis import strategies as st

from .. import edits, gen, ref, spec, sut
from ..doc import Doc, Ev, Field, Slice, Whole
from ..engine import Check
from ..spec import Rnd


class Log2Wide(spec.Log2):
    def gen(self, rnd):
        if rnd.chance(0.3):
            return struct.pack("<i", rnd.int(-10 ** 7, 10 ** 7))
        return super().gen(rnd)


class HeightWide(spec.Height):
    def gen(self, rnd):
        return struct.pack("<f", (rnd.int(0, 1840) if rnd.chance(0.8) else rnd.int(0, 60000)) / 100)


class Tempo(spec.Codec):
    """Tempo in one event of thousandths."""
    size = 4

    def __init__(self, top):
        self.top = top

    def gen(self, rnd):
        return struct.pack("<I", rnd.int(10000, self.top))

    def dec(self, b):
        return struct.unpack("<I", b)[0] / 1000

    def same(self, got, b):
        return spec.close(got, self.dec(b), 1e-12)


def make(version, shape, seed):
    """A project whose convertible fields hold canonical values expanded from `seed`."""
    rnd = Rnd(seed)
    doc = Doc()
    doc.version = tuple(int(x) for x in version.split("."))
    doc.uni = ref.is_unicode(doc.version)
    out = [Ev(199, version.encode() + b"\0")]
    top = 999000 if (1, 4, 2) <= doc.version[:3] < (11,) else 522000
    t = Ev(156, Tempo(top).gen(rnd)) if shape["tempo"] == 0 else None
    if t:
        out.append(t)
        doc.add([], "tempo", Whole(t, Tempo(top)), "x")
    lic = Ev(200, spec.Licensee(doc.uni).gen(rnd))
    out.append(lic)
    doc.add([], "licensee", Whole(lic, spec.Licensee(doc.uni)), "x")
    out.append(Ev(231, ref.text_encode("g", doc.uni)))
    for i in range(shape["patterns"]):
        col = Ev(150, rnd.bytes(4))
        n = shape["notes"]
        notes = Ev(224, b"".join(spec.L_NOTE.payload(Rnd(seed * 31 + k)) for k in range(n)))
        base = bytearray(24 * n)
        for k in range(n):
            base[24 * k + 12:24 * k + 14] = notes.data[24 * k + 12:24 * k + 14]
        notes.data = bytes(base)
        out += [Ev(65, struct.pack("<H", i + 1)), notes, col]
        doc.add(["patterns", i], "color", Whole(col, spec.Color()), "x")
        for k in range(n):
            doc.add(["patterns", i, "notes", k], "key", Slice(notes, 24 * k + 12, spec.Key()), "x")
    for i in range(shape["channels"]):
        p = ["channels", i]
        par = bytearray(158)
        for key in ("stretch.time", "stretch.multiplier", "start", "length"):
            off, codec = spec.L_PARAMS.fields[key]
            codec = Log2Wide() if key == "stretch.multiplier" else codec
            par[off:off + 4] = codec.gen(rnd)
        par = Ev(215, bytes(par))
        col, rev = Ev(128, rnd.bytes(4)), Ev(139, spec.ReverbType().gen(rnd))
        out += [Ev(64, struct.pack("<H", i)), Ev(21, b"\0"), Ev(145, bytes(4)), par, col, rev]
        doc.add(p, "color", Whole(col, spec.Color()), "x")
        doc.add(p + ["stretching"], "time", Slice(par, 96, spec.Musical()), "x")
        doc.add(p + ["stretching"], "multiplier", Slice(par, 104, Log2Wide()), "x")
        doc.add(p + ["fx"], "start", Slice(par, 133, spec.LogNormal()), "x")
        doc.add(p + ["fx"], "length", Slice(par, 141, spec.LogNormal()), "x")
        doc.add(p + ["fx", "reverb"], "type", Whole(rev, spec.ReverbType()), "x")
        doc.add(p + ["fx", "reverb"], "mix", Whole(rev, spec.ReverbMix()), "x")
    out.append(Ev(99, b"\0\0"))
    for i in range(shape["tracks"]):
        d = bytearray(48)
        d[4:8] = rnd.bytes(4)
        d[13:17] = HeightWide().gen(rnd)
        ev = Ev(238, bytes(d))
        out.append(ev)
        doc.add(["arrangements", 0, "tracks", i], "color", Slice(ev, 4, spec.Color()), "x")
        doc.add(["arrangements", 0, "tracks", i], "height", Slice(ev, 13, HeightWide()), "x")
    col = Ev(149, rnd.bytes(4))
    out += [col, Ev(236, bytes(12)), Ev(147, bytes(4))]
    doc.add(["mixer", 0], "color", Whole(col, spec.Color()), "x")
    doc.events = out
    return doc


SHAPES = st.fixed_dictionaries({
    "tempo": st.just(0), "patterns": st.integers(0, 2), "notes": st.integers(1, 12),
    "channels": st.integers(1, 6), "tracks": st.integers(0, 6)})
VERSIONS = st.sampled_from(["20.8.4", "12.9.1.4", "10.0.9", "11.5.0", "9.0.0"])


class Copy(Check):
    name = "copy"
    quick = 90
    thorough = 3000
    rule = ("two projects of the same shape with independent random stored values; every "
            "convertible attribute of one is copied onto the other; the result must be the "
            "first file byte for byte; non-trivial: at least 10 attributes")

    def strategy(self):
        s = st.integers(0, 2 ** 32 - 1)
        return st.tuples(VERSIONS, SHAPES, s, s)

    def run(self, case):
        version, shape, sa, sb = case
        a, b = make(version, shape, sa), make(version, shape, sb)
        pa, pb = sut.load(a.raw()), sut.load(b.raw(), "other.flp")
        fa, fb = sut.check_all(pa, a.fields), sut.Finder(pb)
        self.nontrivial = len(a.fields) >= 10
        for f in a.fields:
            value = sut.get(fa, f)
            edits.assign(fb, f, value)
            self.tag("copied " + f.attr)
        got = sut.saved(pb)
        if got != a.raw():
            ev = ref.load(got)[3]
            for k, (x, y) in enumerate(zip(ev, a.events)):
                if x != (y.id, y.data):
                    raise sut.Violation(
                        "values read from one project and assigned to another are stored as "
                        "%d:%s instead of %d:%s (event %d)" % (x[0], x[1].hex(), y.id, y.data.hex(), k))
            raise sut.Violation("copied values: " + sut.diff(got, a.raw()))


def user_value(field, cur, rnd):
    """A legal user-facing value and a test that what is read is as near as the format allows."""
    c = field.codec
    if isinstance(c, spec.Color):
        v = type(cur)(*(rnd.pick((0.0, 1.0, 0.5, rnd.r.random())) for _ in range(4)))
        return v, lambda g: len(g) == 4 and all(abs(x - y) <= 0.5 / 255 + 1e-9 for x, y in zip(g, v))
    if isinstance(c, spec.Musical):
        v = type(cur)(rnd.int(0, 5000), rnd.int(0, 15), 5 * rnd.int(0, 47))
        return v, lambda g: tuple(g) == tuple(v)
    if isinstance(c, spec.Log2):
        v = rnd.pick((1.0, 2.0, 0.5, math.exp(rnd.r.uniform(-7, 7)), rnd.r.uniform(0.01, 10)))
        return v, lambda g: abs(math.log2(g) - math.log2(v)) <= 0.5 / 10000 + 1e-9
    if isinstance(c, spec.LogNormal):
        v = rnd.pick((0.0, 1.0, 0.5, rnd.r.random(), 2.0 ** -rnd.r.uniform(0, 14.9), 1e-3, 3.2e-5))
        lo = 2.0 ** -15
        return v, lambda g: g == 0.0 if v == 0 else (
            abs(math.log2(g) - math.log2(v)) <= 0.5 / 4096 + 1e-9 if v > lo * 1.001 and g else
            abs(g - v) <= lo)
    if isinstance(c, spec.Height):
        v = "%d%%" % rnd.int(0, 1840)
        return v, lambda g: g == v
    if isinstance(c, spec.Key):
        k = rnd.int(0, 131)
        return rnd.pick((k, c.dec(struct.pack("<H", k)))), \
            lambda g: g == c.dec(struct.pack("<H", k))
    if isinstance(c, Tempo):
        v = rnd.pick((120.0, 10.0, 522.0, 128, rnd.r.uniform(10, c.top / 1000),
                      rnd.int(10000, c.top) / 1000))
        return v, lambda g: abs(g - v) <= 0.0005 + 1e-9
    if isinstance(c, spec.Licensee):
        v = spec.rand_text(rnd, False, spec.ALNUM)[:60]
        return v, lambda g: g == v
    if isinstance(c, spec.ReverbMix):
        v = rnd.int(0, 65535)
        return v, lambda g: g == v
    v = type(cur)(rnd.pick((0, 65536)))
    return v, lambda g: g == v


class Drift(Check):
    name = "drift"
    quick = 70
    thorough = 2500
    rule = ("every convertible attribute of a random project is assigned a legal user-facing value; "
            "it must read back to the format's resolution, and carrying the read values over to "
            "further projects through saves and loads, 3 times, must change neither values nor "
            "bytes; non-trivial: at least 10 attributes")

    def strategy(self):
        s = st.integers(0, 2 ** 32 - 1)
        return st.tuples(VERSIONS, SHAPES, s, s)

    def run(self, case):
        version, shape, sa, sb = case
        doc = make(version, shape, sa)
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        self.nontrivial = len(doc.fields) >= 10
        near = []
        for k, f in enumerate(doc.fields):
            rnd = Rnd(sb + k + 1)
            v, test = user_value(f, sut.get(find, f), rnd)
            edits.assign(find, f, v)
            near.append((f, v, test))
        raw, values = None, None
        for cycle in range(4):
            got = sut.saved(project)
            again = sut.load(got)
            find = sut.Finder(again)
            now = [sut.get(find, f) for f in doc.fields]
            if raw is None:
                for (f, v, test), g in zip(near, now):
                    try:
                        fine = test(g)
                    except Exception:
                        fine = False
                    sut.require(fine, "%s = %r is read as %r after saving", f.label, v, g)
            else:
                for f, x, y in zip(doc.fields, values, now):
                    sut.require(x == y, "%s drifts from %r to %r in cycle %d", f.label, x, y, cycle)
                sut.require(got == raw, "the file drifts in cycle %d: %s", cycle,
                            sut.diff(got, raw))
            raw, values = got, now
            base = make(version, shape, sb + 7 * cycle + 1)
            project = sut.load(base.raw(), "other.flp")
            find = sut.Finder(project)
            for f, v in zip(base.fields, values):
                edits.assign(find, f, v)
        self.tag("attributes", len(doc.fields))


class OldTempo(Check):
    name = "oldtempo"
    quick = 60
    thorough = 2000
    rule = ("coarse and fine tempo events: stored values are read as their sum, and assigning a "
            "tempo to thousandths stores exactly that split; non-trivial: a fine event exists")

    def strategy(self):
        return st.tuples(st.sampled_from(["20.8.4", "10.0.9", "3.4.0", "11.0.0", "3.3.9", "1.4.1"]),
                         st.booleans(), st.booleans(), st.integers(0, 2 ** 32 - 1))

    def run(self, case):
        version, fine, new, seed = case
        rnd = Rnd(seed)
        v = tuple(map(int, version.split(".")))
        top = 999 if (1, 4, 2) <= v < (11,) else 522
        coarse = Ev(66, struct.pack("<H", rnd.int(10, top - 1)))
        events = [Ev(199, version.encode() + b"\0"), coarse]
        fev = Ev(93, struct.pack("<H", rnd.int(0, 999)))
        if fine:
            events.append(fev)
        nev = Ev(156, struct.pack("<I", rnd.int(10000, top * 1000)))
        if new:
            events.insert(1, nev)
        doc = Doc()
        doc.events = events

        def stored():
            if new:
                return struct.unpack("<I", nev.data)[0]
            return 1000 * struct.unpack("<H", coarse.data)[0] + \
                (struct.unpack("<H", fev.data)[0] if fine else 0)
        project = sut.load(doc.raw())
        self.nontrivial = fine or new
        with sut.ok("tempo"):
            got = project.tempo
        sut.require(spec.close(got, stored() / 1000, 1e-12), "tempo reads as %r, stored are %d/1000",
                    got, stored())
        whole = v < (3, 4, 0) or not (fine or new)
        m = 1000 * rnd.int(10, top) if whole else rnd.int(10000, 1000 * top)
        value = m // 1000 if whole else m / 1000
        with sut.ok("tempo = %r" % value):
            project.tempo = value
        coarse.data = struct.pack("<H", m // 1000)
        fev.data = struct.pack("<H", m % 1000)
        nev.data = struct.pack("<I", m)
        sut.require(spec.close(project.tempo, value, 1e-12), "tempo = %r reads as %r", value,
                    project.tempo)
        again = sut.load(edits.check_saved(project, doc, "after tempo = %r" % value))
        sut.require(spec.close(again.tempo, value, 1e-12), "tempo %r reloads as %r", value,
                    again.tempo)


class Versions(Check):
    name = "versions"
    quick = 100
    thorough = 4000
    rule = ("version text of 3 or 4 numbers copied as an object, text or tuple onto another "
            "project is stored as the same text; non-trivial: all")

    def strategy(self):
        part = st.one_of(st.integers(0, 40), st.integers(0, 2 ** 31 - 1))
        ver = st.one_of(st.tuples(part, part, part), st.tuples(part, part, part, part))
        return st.tuples(ver, ver, st.sampled_from(["object", "text", "tuple"]))

    def run(self, case):
        va, vb, how = case
        self.nontrivial = True
        ta, tb = (".".join(map(str, v)) for v in (va, vb))
        raws = [ref.build(0, 0, 96, [(199, t.encode() + b"\0")]) for t in (ta, tb)]
        a, b = sut.load(raws[0]), sut.load(raws[1], "other.flp")
        with sut.ok("version"):
            v = a.version
            got = (v.major, v.minor, v.patch) + (() if v.build is None else (v.build,))
        sut.require(got == va and str(v) == ta, "version %s reads as %r (%s)", ta, got, v)
        with sut.ok("version = %s %s" % (how, ta)):
            b.version = {"object": v, "text": ta, "tuple": va}[how]
        got = sut.saved(b)
        sut.require(got == raws[0], "version %s assigned as %s: %s", ta, how, sut.diff(got, raws[0]))
        sut.require(b.version == v, "version %s reads back as %s", v, b.version)


PARTS = [Copy, Drift, OldTempo, Versions]
