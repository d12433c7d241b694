"""Header validation."""
import struct

from hypothesis import strategies as st

from .. import flat, ref, sut
from ..engine import Check
from ..gen import Src

NEAR_FMT = sorted({v + d for v in ref.FORMATS for d in (-1, 0, 1)} | {-2, 2, 8, 31, 33, 65, 81, 96,
                                                                      127, 128, 255, 256, -32768,
                                                                      32767, 4096})
NEAR_PPQ = sorted({v + d for v in ref.PPQS for d in (-1, 0, 1, 24)} | {0, 1, 216, 240, 288, 480,
                                                                       576, 1920, 9600, 65535,
                                                                       24576, 49152})


class Case:
    def __init__(self, raw, what):
        self.raw, self.what = raw, what


@st.composite
def cases(draw):
    src = Src(draw)
    base = flat.make_flat(src, most=5)
    f = {"magic": b"FLhd", "hsize": 6, "fmt": base.fmt, "nchan": base.nchan, "ppq": base.ppq,
         "dmagic": b"FLdt", "size": None}
    body = base.raw()[22:]
    what = []
    kinds = ("none", "magic", "hsize", "fmt", "ppq", "dmagic", "size", "cut", "extend", "empty",
             "nchan", "swap")
    for _ in range(src.pick((1, 0, 1, 2))):
        k = src.pick(kinds)
        what.append(k)
        if k in ("magic", "dmagic"):
            m = bytearray(f[k])
            j = src.int(0, 3)
            m[j] = src.pick((m[j] ^ 0x20, 0, m[j] + 1, m[j] - 1, 255)) & 0xFF
            f[k] = bytes(m)
            if src.chance(20):
                f[k] = {"magic": b"FLdt", "dmagic": b"FLhd"}[k]
        elif k == "hsize":
            f[k] = src.pick((5, 7, 0, 6 << 8, 6 << 24, 6 + 65536, 2 ** 32 - 1, 10, 6, 12, 262))
        elif k == "fmt":
            f[k] = src.pick(NEAR_FMT) if src.chance(70) else src.int(-32768, 32767)
        elif k == "ppq":
            f[k] = src.pick(NEAR_PPQ) if src.chance(70) else src.int(0, 65535)
        elif k == "nchan":
            f[k] = src.pick((0, 1, 255, 256, 32767, 32768, 65535))
        elif k == "size":
            f[k] = max(0, len(body) + src.pick((1, -1, 2, -2, 256, 65536, -len(body), 22, -22, 8)))
            f[k] &= 0xFFFFFFFF
        elif k == "empty":
            body = b""
        elif k == "swap":
            f["nchan"], f["ppq"] = f["ppq"], f["nchan"]
    head = struct.pack("<4sIhHH4sI", f["magic"], f["hsize"], f["fmt"], f["nchan"], f["ppq"],
                       f["dmagic"], len(body) if f["size"] is None else f["size"])
    raw = head + body
    if "cut" in what:
        raw = raw[:src.int(0, min(len(raw), 40) - 1)] if src.chance(70) else raw[:-src.int(1, 5)]
    elif "extend" in what:  # not after a cut: the bytes cut off would be replaced by others
        raw += src.rnd().bytes(src.int(1, 30))
    return Case(raw, what)


def judge(raw):
    """-> (fmt, nchan, ppq) when the header is valid, else None."""
    try:
        fmt, nchan, ppq = ref.check_header(raw)
    except ref.RefError:
        return None
    return fmt, nchan, ppq


def decide(raw):
    want = judge(raw)
    path = sut.write(raw)
    try:
        project = sut.pyflp.parse(path)
    except sut.exc.HeaderCorrupted as e:
        sut.require(want is None, "a valid header was rejected: %s", e)
        return False
    except Exception as e:
        if want is not None:
            try:
                ref.split(raw[22:])
            except ref.RefError:
                return False  # a cut that matches the stored size breaks the last event instead
        raise sut.Violation("%r instead of the header-corruption error for %s" % (
            e, raw[:24].hex()) if want is None else "valid file failed to load: %r" % e)
    sut.require(want is not None, "an invalid header was accepted: %s (%d bytes)",
                raw[:22].hex(), len(raw))
    with sut.ok("reading the header's values"):
        got = (project.format, project.channel_count, project.ppq)
    sut.require(tuple(int(x) for x in got) == want, "header values %r read as %r", want, got)
    sut.require(getattr(got[0], "name", None) == ref.FORMATS[want[0]],
                "format %d is named %r", want[0], got[0])
    return True


class Headers(Check):
    name = "headers"
    quick = 500
    thorough = 15000
    rule = ("a valid file with 0-2 header fields replaced by near-miss or random values, or the "
            "file cut or extended; non-trivial: something was changed")

    def strategy(self):
        return cases()

    def describe(self, c):
        return {"changed": c.what, "head": c.raw[:22].hex(), "length": len(c.raw)}

    def run(self, c):
        self.nontrivial = bool(c.what) and c.what != ["none"]
        self.tag("accepted" if decide(c.raw) else "rejected")
        for w in c.what:
            self.tag("changed " + w)


class Block(Check):
    name = "blocks"
    quick = 32
    thorough = 512
    rule = ("128 consecutive values of the format or PPQ field tried on one valid file; all "
            "non-trivial")

    def strategy(self):
        return st.tuples(st.sampled_from(("fmt", "ppq", "ppqlow", "fmtlow")), st.integers(0, 511))

    def run(self, case):
        what, block = case
        self.nontrivial = True
        body = ref.frame(199, b"20.8.4\0")
        if what.endswith("low"):
            block %= 8
        for v in range(block * 128, block * 128 + 128):
            if what.startswith("fmt"):
                s = v - 65536 if v >= 32768 else v
                raw = ref.header(s, 1, 96, len(body)) + body
            else:
                raw = ref.header(0, 1, v, len(body)) + body
            decide(raw)
            self.tag("values")


PARTS = [Headers, Block]
