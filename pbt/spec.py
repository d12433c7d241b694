"""Value codecs and field layouts of the known payloads (oracle side, no pyflp)."""
import math
import pathlib
import random
import struct

from . import ref


class Rnd:
    """Deterministic expansion of one drawn seed; seed 0 expands to all-simplest values."""

    def __init__(self, seed):
        self.zero = not seed
        self.r = random.Random(seed)

    def int(self, lo, hi):
        if self.zero:
            return min(max(lo, 0), hi)
        m = self.r.random()
        if m < 0.55:
            return self.r.randint(lo, hi)
        if m < 0.75:
            return self.r.choice((lo, hi, min(max(lo, 0), hi), min(max(lo, 1), hi),
                                  min(max(lo, -1), hi), (lo + hi + 1) // 2, (lo + hi) // 2))
        if m < 0.9:
            v = 1 << self.r.randrange(0, max(1, hi.bit_length()))
            return min(max(lo, v - self.r.randint(0, 1)), hi)
        return min(max(lo, self.r.randint(0, 40)), hi)

    def bytes(self, n):
        if self.zero:
            return bytes(n)
        return bytes(self.r.getrandbits(8) for _ in range(n)) if n else b""

    def pick(self, seq):
        return seq[0] if self.zero else self.r.choice(seq)

    def chance(self, p):
        return False if self.zero else self.r.random() < p


_BMP = "abcXYZ019 _-./#%éßñЖ漢字ひ한\u200d\ufffd"
_ASTRAL = "\U0001f3b9\U0001d11e\U00020000"


# Texts which code may be tempted to treat specially.
_PHRASES = [" ", "  x", "x  ", "\tx\n", "a\r\nb", "\n", ".", "..", "./", "/", "\\", "C:\\FL\\Kick.WAV",
            "%FLStudioFactoryData%\\Data\\Patches\\Snare.wav", "a//b/./c", "~/x", "$HOME",
            "None", "0", "-1", "1.5", "11.5.0", "20.8.4.2576", "#1", "Unsorted", "Sampler", "Name",
            "Insert 1", "Master", "Current", "it's", 'say "hi"', "{0}", "%s", "https://x.y/?q=1&r=2",
            "{\\rtf1\\ansi x}", "Über", "ΑΒΓ", "\ufeffx", "\u200b", "e\u0301", "é", "ß", "İ",
            "日本", "\U0001f3b5", "A" * 300]


def rand_text(rnd, uni, alphabet=None):
    if rnd.zero:
        return ""
    if alphabet is None and rnd.chance(0.12):
        return rnd.pick(_PHRASES if uni else [x for x in _PHRASES if x.isascii()])
    n = rnd.pick((0, 1, 2, 3, 5, 8, 13, 30, 63, 64, 65, 127, 128, 200))
    if rnd.chance(0.6):
        n = min(n, 12)
    if alphabet is None:
        if uni:
            alphabet = rnd.pick((_BMP, _BMP + _ASTRAL, "abcdefghij 0123456789"))
        else:
            alphabet = rnd.pick(("".join(chr(c) for c in range(1, 128)), "abc XYZ 012 ~!"))
    return "".join(rnd.r.choice(alphabet) for _ in range(n))


def eqnum(a, b):
    return isinstance(a, (int, float)) and a == b


def close(a, b, rel=1e-9, abs_=0.0):
    return isinstance(a, (int, float)) and (a == b or abs(a - b) <= max(rel * abs(b), abs_))


class Codec:
    size = 0
    flag = False

    def gen(self, rnd):
        raise NotImplementedError

    def dec(self, b):
        raise NotImplementedError

    def same(self, got, b):
        return eqnum(got, self.dec(b))

    def new(self, rnd, cur, old):
        """-> (value to assign, bytes it must be stored as), given what is read and stored now."""
        b = self.gen(rnd)
        return self.assign(b, cur), b

    def assign(self, b, cur):
        return self.dec(b)


class Int(Codec):
    def __init__(self, fmt, lo=None, hi=None):
        self.fmt = "<" + fmt
        self.size = struct.calcsize(self.fmt)
        bits = 8 * self.size
        if fmt.isupper():
            self.lo, self.hi = 0, (1 << bits) - 1
        else:
            self.lo, self.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if lo is not None:
            self.lo = lo
        if hi is not None:
            self.hi = hi

    def gen(self, rnd):
        return struct.pack(self.fmt, rnd.int(self.lo, self.hi))

    def dec(self, b):
        return struct.unpack(self.fmt, b)[0]

    def same(self, got, b):
        return isinstance(got, int) and got == self.dec(b)


class Bool(Codec):
    """On/off stored in `size` bytes, canonically 0 or 1."""

    def __init__(self, size=1):
        self.size = size

    def gen(self, rnd):
        return rnd.int(0, 1).to_bytes(self.size, "little")

    def dec(self, b):
        return any(b)

    def same(self, got, b):
        return isinstance(got, int) and bool(got) == self.dec(b) and got in (0, 1)

    def new(self, rnd, cur, old):
        v = not any(old) if rnd.zero or rnd.chance(0.8) else any(old)
        return v, int(v).to_bytes(self.size, "little")


class Bit(Codec):
    """One bit of a little endian flags field."""
    flag = True

    def __init__(self, bit, size, inverted=False):
        self.bit, self.size, self.inverted = bit, size, inverted

    def gen(self, rnd):
        return rnd.bytes(self.size)

    def dec(self, b):
        return bool(int.from_bytes(b, "little") >> self.bit & 1) != self.inverted

    def same(self, got, b):
        return isinstance(got, int) and got in (0, 1) and bool(got) == self.dec(b)

    def put(self, value, old):
        n = int.from_bytes(old, "little")
        if bool(value) != self.inverted:
            n |= 1 << self.bit
        else:
            n &= ~(1 << self.bit)
        return n.to_bytes(self.size, "little")

    def new(self, rnd, cur, old):
        v = not self.dec(old) if rnd.zero or rnd.chance(0.75) else self.dec(old)
        return v, self.put(v, old)


class F32(Codec):
    size = 4

    def gen(self, rnd):
        if rnd.zero:
            return bytes(4)
        v = rnd.pick((0.0, 1.0, -1.0, 0.5, 0.1, 1e-20, 3.5e30, 120.25, -0.0,
                      rnd.r.uniform(-4, 4), rnd.r.uniform(0, 1e6)))
        return struct.pack("<f", v)

    def dec(self, b):
        return struct.unpack("<f", b)[0]

    def same(self, got, b):
        return isinstance(got, (int, float)) and struct.pack("<d", got) == struct.pack("<d", self.dec(b))


class F64(F32):
    size = 8

    def gen(self, rnd):
        if rnd.zero:
            return bytes(8)
        v = rnd.pick((0.0, 1.0, -1.0, 0.5, 0.1, 1e-200, 120.25, rnd.r.uniform(-4, 4),
                      rnd.r.uniform(0, 1e6)))
        return struct.pack("<d", v)

    def dec(self, b):
        return struct.unpack("<d", b)[0]


class Enum(Codec):
    """Named values; a value outside `names` stays a plain number."""

    def __init__(self, fmt, names, unknown=True):
        self.fmt, self.names = "<" + fmt, names
        self.size = struct.calcsize(self.fmt)
        self.unknown = unknown

    def gen(self, rnd):
        if self.unknown and rnd.chance(0.12):
            while True:
                v = rnd.int(*((0, 1 << (8 * self.size - 1)) if self.fmt[1].isupper() else (-9, 99)))
                if v not in self.names:
                    return struct.pack(self.fmt, v)
        return struct.pack(self.fmt, rnd.pick(list(self.names)))

    def dec(self, b):
        return struct.unpack(self.fmt, b)[0]

    def same(self, got, b):
        v = self.dec(b)
        if not isinstance(got, int) or got != v:
            return False
        return v not in self.names or getattr(got, "name", None) == self.names[v]

    def new(self, rnd, cur, old):
        v = rnd.pick(list(self.names))
        return type(cur)(v), struct.pack(self.fmt, v)


class StrEnum(Enum):
    """Enum whose members are exposed as strings."""

    def same(self, got, b):
        v = self.dec(b)
        if v in self.names:
            return isinstance(got, str) and str(got) == self.names[v]
        return not isinstance(got, str) and int(got) == v

    def new(self, rnd, cur, old):
        v = rnd.pick(list(self.names))
        return self.names[v], struct.pack(self.fmt, v)


class Pair(Codec):
    def __init__(self, fmt):
        self.one = Int(fmt)
        self.size = 2 * self.one.size

    def gen(self, rnd):
        return self.one.gen(rnd) + self.one.gen(rnd)

    def dec(self, b):
        n = self.one.size
        return (self.one.dec(b[:n]), self.one.dec(b[n:]))

    def same(self, got, b):
        return isinstance(got, tuple) and tuple(got) == self.dec(b)


class F32Pair(Codec):
    size = 8
    one = F32()

    def gen(self, rnd):
        return self.one.gen(rnd) + self.one.gen(rnd)

    def dec(self, b):
        return struct.unpack("<ff", b)

    def same(self, got, b):
        return len(tuple(got)) == 2 and self.one.same(got[0], b[:4]) and self.one.same(got[1], b[4:])


class Color(Codec):
    size = 4

    def gen(self, rnd):
        return rnd.bytes(4)

    def dec(self, b):
        return tuple(x / 255 for x in b)

    def same(self, got, b):
        got = tuple(got)
        names = ("red", "green", "blue", "alpha")
        return len(got) == 4 and all(close(g, x / 255) for g, x in zip(got, b))

    def assign(self, b, cur):
        return type(cur)(*(x / 255 for x in b))


class Musical(Codec):
    size = 4

    def gen(self, rnd):
        return struct.pack("<I", rnd.int(0, 2 ** 32 - 1) if rnd.chance(0.3) else rnd.int(0, 5000))

    def dec(self, b):
        n = struct.unpack("<I", b)[0]
        return (n // 768, n % 768 // 48, n % 48 * 5)

    def same(self, got, b):
        return tuple(got) == self.dec(b) and (got.bars, got.beats, got.ticks) == self.dec(b)

    def assign(self, b, cur):
        return type(cur)(*self.dec(b))


class Log2(Codec):
    size = 4

    def gen(self, rnd):
        return struct.pack("<i", rnd.int(-100000, 100000))

    def dec(self, b):
        return 2.0 ** (struct.unpack("<i", b)[0] / 10000)

    def same(self, got, b):
        return close(got, self.dec(b), 1e-12)


class LogNormal(Codec):
    size = 4

    def gen(self, rnd):
        v = rnd.int(0, 61440)
        return struct.pack("<HH", v, 63 if v else 0)

    def dec(self, b):
        v = struct.unpack("<H", b[:2])[0]
        return 0.0 if not v else min(1.0, 2.0 ** (v / 4096 - 15))

    def same(self, got, b):
        return isinstance(got, float) and close(got, self.dec(b), 1e-12)


class Height(Codec):
    size = 4

    def gen(self, rnd):
        return struct.pack("<f", rnd.int(0, 1000) / 100)

    def dec(self, b):
        return "%d%%" % round(struct.unpack("<f", b)[0] * 100)

    def same(self, got, b):
        return got == self.dec(b)


NOTE_NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")


class Key(Codec):
    size = 2

    def gen(self, rnd):
        return struct.pack("<H", rnd.int(0, 131))

    def dec(self, b):
        k = struct.unpack("<H", b)[0]
        return "%s%d" % (NOTE_NAMES[k % 12], k // 12)

    def same(self, got, b):
        return got == self.dec(b)

    def new(self, rnd, cur, old):
        b = self.gen(rnd)
        if rnd.chance(0.5):
            return struct.unpack("<H", b)[0], b
        return self.dec(b), b


class ReverbType(Codec):
    size = 4
    B = 65536

    def gen(self, rnd):
        return struct.pack("<I", rnd.int(0, 65535) + rnd.pick((0, self.B)))

    def dec(self, b):
        return self.B if struct.unpack("<I", b)[0] >= self.B else 0

    def same(self, got, b):
        return isinstance(got, int) and got == self.dec(b) and \
            getattr(got, "name", "") == ("B" if self.dec(b) else "A")

    def new(self, rnd, cur, old):
        v = rnd.pick((0, self.B))
        mix = struct.unpack("<I", old)[0] - self.dec(old)
        return type(cur)(v), struct.pack("<I", v + mix)


class ReverbMix(ReverbType):
    def dec(self, b):
        n = struct.unpack("<I", b)[0]
        return n - self.B if n >= self.B else n

    def same(self, got, b):
        return isinstance(got, int) and got == self.dec(b)

    def new(self, rnd, cur, old):
        v = rnd.int(0, 65535)
        n = struct.unpack("<I", old)[0]
        return v, struct.pack("<I", v + (self.B if n >= self.B else 0))


class LoopPos(Pair):
    def __init__(self):
        super().__init__("I")


class Dock(Codec):
    """Read only: where an insert is docked."""
    size = 4

    def dec(self, b):
        n = struct.unpack("<I", b)[0]
        return "Middle" if n >> 6 & 1 else "Right" if n >> 7 & 1 else "Left"

    def same(self, got, b):
        return getattr(got, "name", None) == self.dec(b)


class MarkerType(Codec):
    size = 4
    SIG = 134217728

    def dec(self, b):
        return self.SIG if struct.unpack("<I", b)[0] >= self.SIG else 0

    def same(self, got, b):
        return isinstance(got, int) and got == self.dec(b) and \
            getattr(got, "name", "") == ("Signature" if self.dec(b) else "Marker")


class MarkerPos(MarkerType):
    def dec(self, b):
        n = struct.unpack("<I", b)[0]
        return n - self.SIG if n >= self.SIG else n

    def same(self, got, b):
        return isinstance(got, int) and got == self.dec(b)


class Text(Codec):
    """A whole text payload."""

    def __init__(self, uni):
        self.uni = uni

    def gen(self, rnd):
        return ref.text_encode(rand_text(rnd, self.uni), self.uni)

    def dec(self, b):
        return ref.text_decode(b, self.uni)

    def same(self, got, b):
        return isinstance(got, str) and got == self.dec(b)


class PathText(Text):
    def __init__(self, uni, as_text=False):
        super().__init__(uni)
        self.as_text = as_text      # may also be assigned as text

    def same(self, got, b):
        return isinstance(got, pathlib.PurePath) and got == pathlib.Path(self.dec(b))

    def new(self, rnd, cur, old):
        alpha = "abc/XYZ.01 é" if self.uni else "abc/XYZ.01 "
        t = rand_text(rnd, self.uni, alpha if rnd.chance(0.6) else None)
        if self.as_text and rnd.chance(0.4):
            t += rnd.pick(("", "", "/", "\\", " ", ".."))
            return t, ref.text_encode("" if t == "." else t, self.uni)
        p = pathlib.Path(t)
        return p, ref.text_encode("" if str(p) == "." else str(p), self.uni)


ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


class Licensee(Text):
    """Obfuscated user name; legal names are ASCII letters and digits."""

    def gen(self, rnd):
        name = rand_text(rnd, False, ALNUM)[:60]
        return ref.text_encode(ref.licensee_encode(name), self.uni)

    def dec(self, b):
        out = []
        for i, ch in enumerate(ref.text_decode(b, self.uni)):
            for cp in (ord(ch) - 26 + i, ord(ch) + 49 + i):
                if 0 <= cp < 128 and chr(cp).isalnum():
                    out.append(chr(cp))
                    break
        return "".join(out)


class Utf8(Codec):
    def gen(self, rnd):
        return rand_text(rnd, True).encode("utf8")

    def dec(self, b):
        return b.decode("utf8")

    def same(self, got, b):
        return isinstance(got, str) and got == self.dec(b)


class Blob(Codec):
    def gen(self, rnd):
        return rnd.bytes(rnd.int(0, 40))

    def dec(self, b):
        return b

    def same(self, got, b):
        return isinstance(got, (bytes, bytearray)) and bytes(got) == b


class Pages(Codec):
    """Numbered pages of a notebook: index, length in UTF-16 units, text."""

    def gen(self, rnd):
        out, used = b"", set()
        for i in range(rnd.int(0, 4)):
            k = i if rnd.chance(0.7) else rnd.int(0, 2 ** 31 - 1)
            if k in used:
                continue
            used.add(k)
            t = rand_text(rnd, True).encode("utf-16-le")
            out += struct.pack("<i", k) + ref.varint(len(t) // 2) + t
        return out

    def dec(self, b):
        out, i = {}, 0
        while i < len(b):
            k = struct.unpack_from("<i", b, i)[0]
            i += 4
            n = shift = 0
            while True:
                n |= (b[i] & 127) << shift
                shift += 7
                i += 1
                if b[i - 1] < 128:
                    break
            out[k] = b[i:i + 2 * n].decode("utf-16-le")
            i += 2 * n
        return out

    def same(self, got, b):
        return isinstance(got, dict) and list(got.items()) == list(self.dec(b).items())


# -- layouts ------------------------------------------------------------------
I, U, B, H = Int("i"), Int("I"), Bool(), Int("H")

FILTER = {0: "FastLP", 1: "LP", 2: "BP", 3: "HP", 4: "BS", 5: "LPx2", 6: "SVFLP", 7: "SVFLPx2"}
SHAPE = {0: "Sine", 1: "Triangle", 2: "Pulse"}
ARPDIR = {0: "Off", 1: "Up", 2: "Down", 3: "UpDownBounce", 4: "UpDownSticky", 5: "Random"}
DECLICK = {0: "OutOnly", 1: "TransientNoBleeding", 2: "Transient", 3: "Generic", 4: "Smooth",
           5: "Crossfade"}
STRETCH = {-1: "Stretch", 0: "Resample", 1: "E3Generic", 2: "E3Mono", 3: "SliceStretch",
           4: "SliceMap", 5: "Auto", 6: "E2Generic", 7: "E2Transient", 8: "E2Mono", 9: "E2Speech"}
MOTION = {0: "Stay", 1: "OneShot", 2: "MarchWrap", 3: "MarchStay", 4: "MarchStop", 5: "Random",
          6: "ExclusiveRandom"}
PRESS = {0: "Retrigger", 1: "HoldStop", 2: "HoldMotion", 3: "Latch"}
SYNC = {0: "Off", 1: "QuarterBeat", 2: "HalfBeat", 3: "Beat", 4: "TwoBeats", 5: "FourBeats",
        6: "Auto"}
PAGE = {0: "Editor", 1: "Settings", 3: "Sample", 4: "Envelope", 5: "Miscellaneous"}


class Layout:
    """name -> (offset, codec) plus the offsets where a shorter payload may end."""

    def __init__(self, size, fields, extra_bounds=()):
        self.size = size
        self.fields = fields
        b = {0, size, *extra_bounds}
        for off, codec in fields.values():
            b.add(off)
            b.add(off + codec.size)
        self.bounds = sorted(b)

    def payload(self, rnd):
        data = bytearray(rnd.bytes(self.size))
        for off, codec in self.fields.values():
            data[off:off + codec.size] = codec.gen(rnd)
        return bytes(data)


def _seq(start, codec, names):
    out = {}
    for n in names:
        out[n] = (start, codec)
        start += codec.size
    return out


L_DELAY = Layout(20, {"feedback": (0, U), "pan": (4, I), "pitch_shift": (8, I), "echoes": (12, U),
                      "time": (16, U)})
L_ENV = Layout(68, {"flags": (0, I), "enabled": (4, Bool(4)),
                    **_seq(8, I, ("predelay", "attack", "hold", "decay", "sustain", "release",
                                  "amount")),
                    "lfo.predelay": (36, U), "lfo.attack": (40, U), "lfo.amount": (44, I),
                    "lfo.speed": (48, U), "lfo.shape": (52, Enum("i", SHAPE)),
                    "attack_tension": (56, I), "decay_tension": (60, I),
                    "release_tension": (64, I)})
L_ADJ = Layout(20, {"pan": (0, I), "volume": (4, U), "mod_x": (12, I), "mod_y": (16, I)})
L_LEVELS = Layout(24, {"pan": (0, I), "volume": (4, U), "pitch_shift": (8, I), "mod_x": (12, U),
                       "mod_y": (16, U), "type": (20, Enum("I", FILTER))})
L_POLY = Layout(9, {"max": (0, U), "slide": (4, U), "flags": (8, Int("B"))})
L_TRACKING = Layout(16, {"middle_value": (0, U), "pan": (4, I), "mod_x": (8, I), "mod_y": (12, I)})
L_PARAMS = Layout(158, {
    "remove_dc": (9, B), "delay.flags": (10, Int("B")), "main_pitch": (11, B),
    "arp.direction": (40, Enum("I", ARPDIR)), "arp.range": (44, U), "arp.chord": (48, U),
    "arp.time": (52, F32()), "arp.gate": (56, F32()), "arp.slide": (60, B),
    "full_porta": (62, B), "add_root": (63, B), "gate": (64, H), "key_region": (68, Pair("I")),
    "normalize": (80, B), "inverted": (81, B), "declick_mode": (83, Enum("B", DECLICK)),
    "crossfade": (84, U), "trim": (88, U), "arp.repeat": (92, U), "stretch.time": (96, Musical()),
    "stretch.pitch": (100, I), "stretch.multiplier": (104, Log2()),
    "stretch.mode": (108, Enum("i", STRETCH)), "start": (133, LogNormal()),
    "length": (141, LogNormal()), "start_offset": (148, U), "fix_trim": (157, B)})
L_TRACK = Layout(48, {
    "iid": (0, U), "color": (4, Color()), "icon": (8, U), "enabled": (12, B),
    "height": (13, Height()), "locked_height": (17, I), "content_locked": (21, B),
    "motion": (22, Enum("I", MOTION)), "press": (26, Enum("I", PRESS)),
    "trigger_sync": (30, Enum("I", SYNC)), "queued": (34, Bool(4)), "tolerant": (38, Bool(4)),
    "position_sync": (42, Enum("I", SYNC)), "grouped": (46, B), "locked": (47, B)})
L_PLSEL = Layout(8, {"start": (0, U), "end": (4, U)})
L_INSFLAGS = Layout(12, {"flags": (4, U)})
L_WRAPPER = Layout(52, {"flags": (16, U), "page": (20, Enum("B", PAGE)), "width": (44, U),
                        "height": (48, U)})
WRAPPER_BITS = {"visible": 0, "disabled": 1, "detached": 2, "generator": 4, "smart_disable": 5,
                "multithreaded": 6, "demo_mode": 7, "compact": 8, "minimized": 9, "directx": 16}
INSERT_BITS = {"polarity_reversed": (0, False), "channels_swapped": (1, False),
               "bypassed": (2, True), "enabled": (3, False), "separator_shown": (10, False),
               "locked": (11, False), "is_solo": (12, False)}

L_NOTE = Layout(24, {"position": (0, U), "length": (8, U), "rack_channel": (6, H),
                     "key": (12, Key()), "group": (14, H), "fine_pitch": (16, Int("B")),
                     "release": (18, Int("B")), "midi_channel": (19, Int("B")),
                     "pan": (20, Int("B")), "velocity": (21, Int("B")), "mod_x": (22, Int("B")),
                     "mod_y": (23, Int("B"))})
L_CTRL = Layout(12, {"position": (0, U), "channel": (6, Int("B")), "value": (8, F32())})
L_AUTOPOINT = Layout(24, {"offset": (0, F64()), "value": (8, F64()), "tension": (16, F32())})

# internal name -> (usable in channel, prefix rule (bytes, total length) or None, Layout)
U4 = Bool(4)
PLUGINS = {
    "BooBass": (True, 16, Layout(12, _seq(0, U, ("bass", "mid", "high")))),
    "Fruit Kick": (True, None, Layout(32, {
        "max_freq": (4, I), "min_freq": (8, I),
        **_seq(12, U, ("freq_decay", "amp_decay", "click", "distortion"))})),
    "Plucked!": (True, None, Layout(20, {"decay": (0, U), "color": (4, U), "normalize": (8, U4),
                                         "gate": (12, U4), "widen": (16, U4)})),
    "Fruity Balance": (False, None, Layout(8, {"pan": (0, I), "volume": (4, U)})),
    "Fruity Blood Overdrive": (False, 36, Layout(32, {
        "pre_band": (0, U), "color": (4, U), "pre_amp": (8, U), "x100": (12, U4),
        "post_filter": (16, U), "post_gain": (20, U)})),
    "Fruity Center": (False, 8, Layout(4, {"enabled": (0, U4)})),
    "Fruity Fast Dist": (False, None, Layout(20, {
        "pre": (0, U), "threshold": (4, U), "kind": (8, StrEnum("I", {0: "A", 1: "B"})),
        "mix": (12, U), "post": (16, U)})),
    "Fruity Send": (False, None, Layout(16, {"pan": (0, I), "dry": (4, U), "volume": (8, U),
                                             "send_to": (12, I)})),
    "Fruity Soft Clipper": (False, None, Layout(8, {"threshold": (0, U), "post": (4, U)})),
    "Fruity Stereo Enhancer": (False, None, Layout(24, {
        "pan": (0, I), "volume": (4, U), "stereo_separation": (8, I), "phase_offset": (12, I),
        "effect_position": (16, StrEnum("I", {0: "pre", 1: "post"})),
        "phase_inversion": (20, StrEnum("I", {0: "none", 1: "left", 2: "right"}))})),
    "Soundgoodizer": (False, 12, Layout(8, {
        "mode": (0, StrEnum("I", {0: "A", 1: "B", 2: "C", 3: "D"})), "amount": (4, U)})),
}
PLUGIN_CLASS = {"BooBass": "BooBass", "Fruit Kick": "FruitKick", "Plucked!": "Plucked",
                "Fruity Balance": "FruityBalance",
                "Fruity Blood Overdrive": "FruityBloodOverdrive", "Fruity Center": "FruityCenter",
                "Fruity Fast Dist": "FruityFastDist", "Fruity Send": "FruitySend",
                "Fruity Soft Clipper": "FruitySoftClipper",
                "Fruity Stereo Enhancer": "FruityStereoEnhancer",
                "Soundgoodizer": "Soundgoodizer", "Fruity NoteBook 2": "FruityNotebook2",
                "Fruity Wrapper": "VSTPlugin"}

# VST option -> (sub model, attribute, flags field (0: flags, 1: flags2), bit, inverted)
VST_FLAGS = [
    ("automation", "notify_changes", 0, 6, True),
    ("compatibility", "buffers_maxsize", 1, 1, False),
    ("compatibility", "fixed_buffers", 0, 1, False),
    ("compatibility", "process_maximum", 1, 0, False),
    ("compatibility", "reset_on_transport", 0, 25, True),
    ("compatibility", "send_loop", 0, 11, False),
    ("compatibility", "use_time_offset", 0, 31, True),
    ("midi", "send_modx", 0, 17, False),
    ("midi", "send_pb", 0, 0, False),
    ("midi", "send_release", 0, 5, True),
    ("processing", "allow_sd", 0, 29, False),
    ("processing", "bridged", 0, 18, False),
    ("processing", "external", 0, 21, False),
    ("processing", "keep_state", 0, 16, True),
    ("processing", "multithreaded", 0, 12, False),
    ("processing", "notify_render", 0, 2, False),
    ("processing", "process_inactive", 0, 3, False),
    ("ui", "accept_drop", 0, 28, False),
    ("ui", "always_update", 0, 23, False),
    ("ui", "dpi_aware", 0, 26, False),
    ("ui", "scale_editor", 0, 30, False),
]
VST_TEXT = {"fourcc": 51, "name": 54, "plugin_path": 55, "vendor": 56}
VST_BLOB = {"guid": 52, "state": 53}
