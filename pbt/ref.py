"""Independent reference codec of the FLP container: header, framing, event kinds.

Nothing in here imports pyflp. It is the oracle side of the checks.
"""
import struct

FORMATS = {-1: "None_", 0: "Project", 16: "Score", 24: "Automation", 32: "ChannelState",
           48: "PluginState", 49: "GeneratorState", 50: "FXState", 64: "InsertState",
           80: "_ProbablyPatcher"}
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)


class RefError(Exception):
    pass


def varint(n):
    out = bytearray()
    while True:
        if n < 0x80:
            out.append(n)
            return bytes(out)
        out.append(0x80 | (n & 0x7F))
        n >>= 7


def frame(id, data):
    if id >= 192:
        return bytes([id]) + varint(len(data)) + data
    return bytes([id]) + data


def width(id):
    return 1 if id < 64 else 2 if id < 128 else 4


def header(fmt, nchan, ppq, size):
    return struct.pack("<4sIhHH4sI", b"FLhd", 6, fmt, nchan, ppq, b"FLdt", size)


def build(fmt, nchan, ppq, events):
    body = b"".join(frame(i, d) for i, d in events)
    return header(fmt, nchan, ppq, len(body)) + body


def split(body):
    """Event bytes -> [(id, payload)]; RefError when the framing is cut off.

    A length prefix may be written with redundant continuation bytes.
    """
    out = []
    pos = 0
    n = len(body)
    while pos < n:
        id = body[pos]
        pos += 1
        if id < 192:
            size = width(id)
        else:
            size = shift = 0
            while True:
                if pos >= n:
                    raise RefError("cut off in a length prefix")
                b = body[pos]
                pos += 1
                size |= (b & 0x7F) << shift
                shift += 7
                if not b & 0x80:
                    break
        if pos + size > n:
            raise RefError("cut off in a payload")
        out.append((id, body[pos:pos + size]))
        pos += size
    return out


def check_header(raw):
    """File bytes -> (fmt, nchan, ppq); RefError when the header is not valid."""
    if len(raw) < 22:
        raise RefError("short header")
    magic, hsize, fmt, nchan, ppq, dmagic, size = struct.unpack("<4sIhHH4sI", raw[:22])
    if magic != b"FLhd" or hsize != 6 or fmt not in FORMATS or ppq not in PPQS:
        raise RefError("bad header")
    if dmagic != b"FLdt" or not size or size != len(raw) - 22:
        raise RefError("bad data chunk")
    return fmt, nchan, ppq


def load(raw):
    """File bytes -> (fmt, nchan, ppq, events)."""
    return check_header(raw) + (split(raw[22:]),)


# -- kinds of events by ID ---------------------------------------------------
BOOL = {0, 9, 10, 15, 20, 26, 28, 30, 32}
I8 = {22}
I16 = {80, 95}
COLOR = {128, 149, 150}
I32 = {142, 145, 146, 147, 154, 161}
F32 = {140}
PAIR = {131, 132, 138, 152}
TEXT = set(range(192, 208)) | {231, 239, 241}
STRUCTS = {209, 212, 215, 217, 218, 219, 221, 228, 229, 234, 236, 237, 238}
LISTS = {223, 224, 225, 233, 235}
PLUGIN_DATA = 213
MAYBE = {226, 227}  # decoded only once pyflp.controller was imported

KNOWN = (BOOL | I8 | I16 | COLOR | I32 | F32 | PAIR | TEXT | STRUCTS | LISTS | MAYBE | {213}
         | {2, 3, 11, 12, 13, 17, 18, 21, 23, 29, 33, 34}
         | {64, 65, 66, 67, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 93, 94, 97, 98,
            99, 100}
         | {133, 135, 139, 142, 143, 144, 148, 153, 155, 156, 159, 160, 162, 164})
UNKNOWN_FIXED = [i for i in range(192) if i not in KNOWN]
UNKNOWN_DATA = [i for i in range(192, 256) if i not in KNOWN]


def kind(id):
    if id in TEXT:
        return "text"
    if id >= 192:
        return "struct" if id in STRUCTS else "list" if id in LISTS else \
            "plugin" if id == PLUGIN_DATA else "maybe" if id in MAYBE else "raw"
    if id in BOOL:
        return "bool"
    if id in I8:
        return "i8"
    if id in I16:
        return "i16"
    if id in I32:
        return "i32"
    if id in F32:
        return "f32"
    if id in COLOR:
        return "color"
    if id in PAIR:
        return "pair"
    return {1: "u8", 2: "u16", 4: "u32"}[width(id)]


_FMT = {"u8": "<B", "i8": "<b", "u16": "<H", "i16": "<h", "u32": "<I", "i32": "<i", "f32": "<f"}


def scalar(id, data):
    """The value a fixed width event must show."""
    k = kind(id)
    if k == "bool":
        return data != b"\0"
    if k == "color":
        return tuple(b / 255 for b in data)
    if k == "pair":
        return struct.unpack("<HH", data)
    return struct.unpack(_FMT[k], data)[0]


def is_unicode(parts):
    return list(parts[:2]) >= [11, 5]


def text_encode(s, uni):
    return (s + "\0").encode("utf-16-le" if uni else "ascii")


def text_decode(data, uni):
    return data.decode("utf-16-le" if uni else "ascii").rstrip("\0")


# -- licensee obfuscation ------------------------------------------------------
def licensee_encode(name):
    out = []
    for i, ch in enumerate(name):
        for cp in (ord(ch) + 26 - i, ord(ch) - 49 - i):
            if 0 < cp <= 127:
                out.append(chr(cp))
                break
    return "".join(out)
