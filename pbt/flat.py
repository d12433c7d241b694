"""Flat event lists over all IDs: legal framing, payloads as wild as the format allows."""
import struct

from hypothesis import strategies as st

from . import gen, ref, spec
from .gen import Src
from .spec import Rnd

SIZES = (0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 31, 32, 48, 60, 64, 68, 127, 128, 129, 158, 160,
         255, 256, 480)
MAXTEXT = "abc é漢\U0001f3b9\0"


class FlatFile:
    def __init__(self, fmt, nchan, ppq, events, version):
        self.fmt, self.nchan, self.ppq, self.events = fmt, nchan, ppq, events
        self.version = version
        self.uni = ref.is_unicode(version)

    def raw(self):
        return ref.build(self.fmt, self.nchan, self.ppq, self.events)

    def describe(self):
        return {"format": self.fmt, "nchan": self.nchan, "ppq": self.ppq,
                "events": ["%d:%s" % (i, d.hex() if len(d) < 20 else d[:16].hex() + "..%d" % len(d))
                           for i, d in self.events[:25]], "total": len(self.events)}


def odd_text(rnd, uni):
    s = spec.rand_text(rnd, uni)
    if rnd.chance(0.2):
        s = s[:len(s) // 2] + "\0" + s[len(s) // 2:]
    s += "\0" * rnd.pick((1, 1, 0, 2, 3))
    return s.encode("utf-16-le" if uni else "ascii")


LAYOUTS = {209: spec.L_DELAY, 215: spec.L_PARAMS, 218: spec.L_ENV, 219: spec.L_LEVELS,
           221: spec.L_POLY, 228: spec.L_TRACKING, 229: spec.L_ADJ, 212: spec.L_WRAPPER,
           236: spec.L_INSFLAGS, 238: spec.L_TRACK, 217: spec.L_PLSEL}
RECSIZE = {223: 12, 224: 24, 225: 12, 233: 32, 235: 1}
PLUGIN_NAMES = list(spec.PLUGINS) + ["Fruity Wrapper", "Fruity NoteBook 2", "", "Other"]


def payload(rnd, id, uni, name):
    if id < 192:
        n = ref.width(id)
        return rnd.int(0, (1 << 8 * n) - 1).to_bytes(n, "little")
    if id == 200:
        return spec.Licensee(uni).gen(rnd) if rnd.chance(0.5) else odd_text(rnd, uni)
    if id in ref.TEXT:
        return odd_text(rnd, uni)
    if id in (215, 238):
        # out-of-domain ratios, multipliers and heights are refused on load: keep those legal
        lay = LAYOUTS[id]
        d = bytearray(lay.payload(rnd))
        if rnd.chance(0.4):
            good = [(o, c) for o, c in lay.fields.values()
                    if isinstance(c, (spec.LogNormal, spec.Log2, spec.Height))]
            wild = bytearray(rnd.bytes(len(d)))
            for o, c in good:
                wild[o:o + 4] = d[o:o + 4]
            d = wild
        m = rnd.int(0, 3)
        if m == 0:
            return bytes(d)
        if m == 1:
            return bytes(d[:rnd.pick(lay.bounds) if rnd.chance(0.5) else rnd.int(0, lay.size)])
        return bytes(d) + rnd.bytes(rnd.int(0, 40))
    if id in LAYOUTS:
        d = LAYOUTS[id].payload(rnd)
        m = rnd.int(0, 5)
        if m == 0:
            return d
        if m == 1:
            return d[:rnd.int(0, len(d))]
        if m == 2:
            return d + rnd.bytes(rnd.int(1, 40))
        if m == 3:
            return rnd.bytes(len(d))
        return rnd.bytes(rnd.pick(SIZES))
    if id in RECSIZE:
        n = rnd.pick((0, 1, 2, 3, 15, 16, 20)) * RECSIZE[id]
        return rnd.bytes(n + rnd.pick((0, 0, 0, 1, 5)))
    if id == 234:
        return gen.make_automation(rnd)[0].data
    if id == 237:
        return rnd.bytes(16 + rnd.pick((0, 0, 1, 8, -16, -8, -1, -9)))
    if id == 213 and name in spec.PLUGINS:
        _, prefixed, layout = spec.PLUGINS[name]
        d = rnd.bytes(layout.size) if rnd.chance(0.5) else layout.payload(rnd)
        return d + rnd.bytes(rnd.pick((0, 0, 4, 1, 9)))
    if id == 213 and name == "Fruity Wrapper":
        if rnd.chance(0.2):
            return struct.pack("<I", rnd.pick((8, 10))) + rnd.bytes(rnd.pick((0, 3, 12, 40)))
        return gen.vst_event(rnd).data
    if id == 213 and name == "Fruity NoteBook 2":
        return gen.notebook_bytes(rnd.bytes(4), rnd.int(0, 9), spec.Pages().gen(rnd), rnd.int(0, 255))
    if rnd.chance(0.03):
        return rnd.bytes(rnd.pick((16383, 16384, 16385, 2000)))
    return rnd.bytes(rnd.pick(SIZES))


def make_flat(src, most=30, ids=None):
    vtext = src.pick(gen.VERSIONS)
    version = tuple(int(x) for x in vtext.split("."))
    uni = ref.is_unicode(version)
    rnd = src.rnd()
    events = []
    if src.chance(30):
        id = rnd.pick([i for i in range(256) if i not in ref.TEXT and i != 234])
        events.append((id, payload(rnd, id, uni, None)))
    events.append((199, vtext.encode() + b"\0" * rnd.pick((1, 1, 1, 0, 2))))
    name = None
    for _ in range(src.int(0, most)):
        m = src.int(0, 9)
        r = src.rnd()
        if m == 9:
            name = r.pick(PLUGIN_NAMES)
            events.append((201, ref.text_encode(name, uni)))
            events.append((213, payload(r, 213, uni, name)))
            continue
        id = (r.int(0, 255) if r.chance(0.3) else r.r.randrange(256)) if not r.zero else 0
        if m == 8:
            id = r.pick(sorted(LAYOUTS) + sorted(RECSIZE) + [234, 237, 213])
        if m == 7:
            id = r.pick(sorted(ref.TEXT))
        if ids is not None:
            id = r.pick(ids)
        if id == 199:
            id = 255
        if id == 201:
            name = r.pick(PLUGIN_NAMES)
            events.append((201, ref.text_encode(name, uni)))
            continue
        events.append((id, payload(r, id, uni, name)))
    return FlatFile(rnd.pick(sorted(ref.FORMATS)), rnd.int(0, 65535), rnd.pick(ref.PPQS), events,
                    version)


@st.composite
def files(draw, most=30, ids=None):
    return make_flat(Src(draw), most, ids)


def where(got, want):
    from . import sut
    try:
        a, b = ref.load(got), ref.load(want)
    except ref.RefError as e:
        return "%s (%s)" % (sut.diff(got, want), e)
    if a[:3] != b[:3]:
        return "header %r instead of %r" % (a[:3], b[:3])
    for k, (x, y) in enumerate(zip(a[3], b[3])):
        if x != y:
            return "event #%d: id %d %s instead of id %d %s" % (
                k, x[0], x[1].hex()[:400], y[0], y[1].hex()[:400])
    return "%d events instead of %d; %s" % (len(a[3]), len(b[3]), sut.diff(got, want))
