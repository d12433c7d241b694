"""Remote controllers: linked parameter and kind."""
import struct

from hypothesis import strategies as st

from .. import sut
from ..doc import Doc, Ev
from ..engine import Check

from pyflp.controller import RemoteController  # noqa: E402  (sut put the repository on the path)

REMOTE, MIDI = 227, 226


@st.composite
def payloads(draw):
    full = draw(st.binary(min_size=4, max_size=4)) + struct.pack(
        "<Hh", draw(st.one_of(st.integers(0, 65535), st.sampled_from(
            [0, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x00FF, 0xFF00]))),
        draw(st.integers(-32768, 32767))) + draw(st.binary(min_size=12, max_size=12))
    cut = draw(st.one_of(st.just(20), st.integers(0, 20)))
    return full[:cut] + (draw(st.binary(max_size=5)) if cut == 20 else b"")


class Remote(Check):
    name = "remote"
    quick = 150
    thorough = 4000
    rule = ("a file with 1-6 remote controller events of any content, complete, cut anywhere or "
            "extended, between other events; parameter is the low 15 bits and controls_vst the "
            "high bit of the word at offset 4, None if the payload ends before; the save is "
            "unchanged; non-trivial: at least one complete event")

    def strategy(self):
        return st.tuples(st.lists(payloads(), min_size=1, max_size=6), st.booleans(),
                         st.sampled_from(["20.8.4", "11.0.0", "3.5.4"]))

    def run(self, case):
        datas, midi, version = case
        doc = Doc()
        doc.events = [Ev(199, version.encode() + b"\0")]
        for d in datas:
            doc.events.append(Ev(REMOTE, d))
            if midi:
                doc.events.append(Ev(MIDI, d[::-1]))
        raw = doc.raw()
        project = sut.load(raw)
        with sut.ok("collecting controllers"):
            id = next(e.id for e in project.events if int(e.id) == REMOTE)
            ctrls = [RemoteController(t) for t in project.events.separate(id)]
        sut.require(len(ctrls) == len(datas), "%d remote controllers, stored are %d", len(ctrls),
                    len(datas))
        for i, (ctrl, d) in enumerate(zip(ctrls, datas)):
            with sut.ok("reading remote controller %d" % i):
                got = ctrl.parameter, ctrl.controls_vst
                text = repr(ctrl)
            want = (None, None)
            if len(d) >= 6:
                w = struct.unpack_from("<H", d, 4)[0]
                want = (w & 0x7FFF, w >= 0x8000)
                self.nontrivial = True
            sut.require(got == want and type(got[1]) is type(want[1]),
                        "remote controller %d (%s) reads as %r, stored is %r", i, d.hex(), got, want)
            sut.require(str(want[0]) in text, "it is printed as %r", text)
        out = sut.saved(project)
        sut.require(out == raw, "saving it: %s", sut.diff(out, raw))


PARTS = [Remote]
