"""Event decoding and the event classes themselves."""
import struct

from hypothesis import strategies as st

from .. import flat, ref, sut
from ..engine import Check
from ..gen import Src
from ..spec import Rnd


def same_value(got, id, data, uni):
    k = ref.kind(id)
    if k == "text":
        return isinstance(got, str) and got == ref.text_decode(data, uni and id != 199)
    if k == "raw":
        return bytes(got) == data
    if k in ("struct", "list", "plugin", "maybe"):
        return True
    want = ref.scalar(id, data)
    if k == "f32":
        return isinstance(got, float) and struct.pack("<d", got) == struct.pack("<d", want) or \
            (want != want and got != got)
    if k == "bool":
        return isinstance(got, int) and got in (0, 1) and bool(got) == want
    if k == "color":
        return len(tuple(got)) == 4 and all(abs(a - b) < 1e-9 for a, b in zip(tuple(got), want))
    if k == "pair":
        return tuple(got) == want
    return isinstance(got, int) and got == want


class Decode(Check):
    name = "decode"
    quick = 400
    thorough = 10000
    rule = ("flat event list over all 256 IDs; IDs, order, values and serialised bytes of every "
            "event are compared; non-trivial: at least 5 events of at least 2 widths")

    def strategy(self):
        return flat.files(most=40)

    def describe(self, case):
        return case.describe()

    def run(self, case):
        raw = case.raw()
        self.nontrivial = len(case.events) >= 5 and len({i // 64 for i, _ in case.events}) > 1
        project = sut.load(raw)
        with sut.ok("listing the events"):
            events = list(project.events)
            ids = [int(e.id) for e in events]
        want = [i for i, _ in case.events]
        sut.require(ids == want, "event IDs %r instead of %r", ids, want)
        with sut.ok("len(events)"):
            sut.require(len(project.events) == len(want), "len(events) is wrong")
        for k, (e, (id, data)) in enumerate(zip(events, case.events)):
            with sut.ok("event #%d (id %d)" % (k, id)):
                value, out, size = e.value, bytes(e), e.size
            try:
                good = same_value(value, id, data, case.uni)
            except Exception:
                good = False
            sut.require(good, "event #%d, id %d: payload %s read as %r", k, id, data.hex()[:200],
                        value)
            sut.require(out == ref.frame(id, data), "event #%d, id %d serialises as %s, not %s", k,
                        id, out.hex()[:200], ref.frame(id, data).hex()[:200])
            sut.require(size == len(out), "event #%d, id %d: size %r of %d bytes", k, id, size,
                        len(out))
            self.tag(ref.kind(id))


class Sizes(Check):
    name = "sizes"
    quick = 60
    thorough = 600
    rule = ("variable-size payloads around every length-prefix boundary; non-trivial: a payload "
            "of 128 bytes or more")

    def strategy(self):
        return st.lists(st.tuples(
            st.sampled_from(sorted(set(range(208, 256)) - ref.KNOWN)),
            st.one_of(st.sampled_from((0, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384,
                                       16385, 32767, 32768, 65535, 65536)), st.integers(0, 40000),
                      st.sampled_from((40000, 70000, 2097151, 2097152, 2097153))),
            st.integers(0, 255)), min_size=1, max_size=4)

    def run(self, case):
        self.nontrivial = any(n >= 128 for _, n, _ in case)
        events = [(199, b"20.0.0\0")] + [(i, bytes([x]) * n) for i, n, x in case]
        raw = ref.build(0, 1, 96, events)
        project = sut.load(raw)
        with sut.ok("listing the events"):
            got = [(int(e.id), bytes(e)) for e in project.events]
        sut.require(got == [(i, ref.frame(i, d)) for i, d in events], "events differ: %r",
                    [(i, len(b)) for i, b in got])
        sut.require(sut.saved(project) == raw, "saved file differs")


CLASSES = {"BoolEvent": 0, "I8Event": 0, "U8Event": 0, "I16Event": 64, "U16Event": 64,
           "F32Event": 128, "I32Event": 128, "U32Event": 128, "U16TupleEvent": 128,
           "ColorEvent": 128}


class Direct(Check):
    name = "direct"
    quick = 600
    thorough = 8000
    rule = ("an event class instantiated with any ID and payload size: accepted exactly inside its "
            "range; non-trivial: every case (accepted and refused ones are counted)")

    def strategy(self):
        return st.tuples(st.sampled_from(sorted(CLASSES) + ["AsciiEvent", "UnicodeEvent"]),
                         st.one_of(st.integers(0, 255), st.sampled_from(
                             (0, 63, 64, 127, 128, 191, 192, 207, 208, 231, 239, 241, 255))),
                         st.one_of(st.none(), st.integers(0, 9)), st.integers(0, 2 ** 32 - 1),
                         st.booleans())

    def run(self, case):
        import pyflp._events as ev
        cname, id, size, seed, inrange = case
        self.nontrivial = True
        cls = getattr(ev, cname)
        text = cname not in CLASSES
        if text:
            good_id = 192 <= id < 208 or id in (231, 239, 241)
        else:
            base = CLASSES[cname]
            if inrange:
                id = base + id % 64
            good_id = base <= id < base + 64
        rnd = Rnd(seed)
        if text:
            uni = cname == "UnicodeEvent"
            data = flat.odd_text(rnd, uni)
            good_size = True if id >= 192 else len(data) == ref.width(id)
        else:
            n = size if size is not None else ref.width(id) if id < 192 else 4
            data = rnd.bytes(n)
            good_size = id < 192 and n == ref.width(id)
        eid = ev.EventEnum(id)
        if good_id and good_size:
            with sut.ok("%s(%d, %s)" % (cname, id, data.hex())):
                e = cls(eid, data)
                out, value = bytes(e), e.value
            sut.require(out == ref.frame(id, data), "%s(%d, %s) serialises as %s", cname, id,
                        data.hex(), out.hex())
            fmt = {"U8Event": "<B", "I8Event": "<b", "U16Event": "<H", "I16Event": "<h",
                   "U32Event": "<I", "I32Event": "<i"}.get(cname)
            if fmt:
                sut.require(value == struct.unpack(fmt, data)[0], "%s(%s) reads %r", cname,
                            data.hex(), value)
            self.tag("accepted")
        else:
            types = []
            if not good_id:
                types.append(sut.exc.EventIDOutOfRange)
            if not good_size:
                types.append(sut.exc.InvalidEventChunkSize)
            sut.refused("%s(%d, %d bytes)" % (cname, id, len(data)), tuple(types),
                        lambda: cls(eid, data))
            self.tag("refused")


PARTS = [Decode, Sizes, Direct]
