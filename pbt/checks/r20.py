"""Damaged event data never yields a silently altered project."""
import os

from hypothesis import strategies as st

from .. import flat, gen, ref, sut, walk
from ..engine import Check
from ..gen import Src, make_doc
from ..spec import Rnd

ASSUMPTIONS = (
    "the header is kept valid: the data chunk size is that of the damaged event data",
    "a length prefix written with redundant continuation bytes counts as the length it means")


def assets():
    top = os.path.join(sut.REPO, "tests", "assets")
    out = []
    for d, _, names in sorted(os.walk(top)):
        if "corrupted" in d:
            continue
        for n in sorted(names):
            p = os.path.join(d, n)
            if n.endswith((".flp", ".fst", ".fsc")) and 22 < os.path.getsize(p) < 20000:
                out.append(p)
    return out


def starts(body):
    """Offsets where events, their payloads, and they end: [(event, payload, end)]"""
    out = []
    pos = 0
    for id, data in ref.split(body):
        at = pos
        pos += 1
        if id >= 192:
            while body[pos] & 0x80:
                pos += 1
            pos += 1
        out.append((at, pos, pos + len(data)))
        pos += len(data)
    return out


def damage(rnd, body, kind):
    """One damage to the event data."""
    try:
        evs = starts(body)
    except (ref.RefError, IndexError):
        evs = []
    if not body:
        return rnd.bytes(rnd.int(1, 9))
    n = len(body)
    if evs and rnd.chance(0.75):
        at, pay, end = rnd.pick(evs) if rnd.chance(0.6) else evs[-1]
        big = [e for e in evs if body[e[0]] >= 192]
        if big and rnd.chance(0.5):
            at, pay, end = rnd.pick(big)
        pos = rnd.pick((at, min(at + 1, n - 1), pay - 1, min(pay, n - 1), max(at, end - 1), end - 1,
                        rnd.int(at, end - 1)))
    else:
        pos = rnd.int(0, n - 1)
    if kind == "flip":
        b = body[pos] ^ (1 << rnd.int(0, 7))
        return body[:pos] + bytes([b]) + body[pos + 1:]
    if kind == "set":
        b = rnd.pick((0, 1, 0x7F, 0x80, 0xFF, rnd.int(0, 255)))
        return body[:pos] + bytes([b]) + body[pos + 1:]
    if kind == "delete":
        return body[:pos] + body[pos + rnd.pick((1, 1, 2, 3, 4, rnd.int(1, 40))):]
    if kind == "insert":
        return body[:pos] + rnd.bytes(rnd.pick((1, 1, 2, 4, rnd.int(1, 30)))) + body[pos:]
    if kind == "truncate":
        return body[:pos] if rnd.chance(0.5) else body[:max(1, n - rnd.int(1, 12))]
    if kind == "extend":
        tail = rnd.pick((b"\xc0", b"\xd5\x05ab", b"\x40", b"\x40\x01", b"\x80\0\0\0", b"\xc7\x80",
                         b"\xff\xff\xff\xff\xff\x7f", b"\xe1\x0c1234", b"\x00", rnd.bytes(5)))
        return body + tail
    if kind == "swap" and len(evs) > 1:
        i = rnd.int(0, len(evs) - 2)
        a, b = evs[i], evs[i + 1]
        return body[:a[0]] + body[b[0]:b[2]] + body[a[0]:a[2]] + body[b[2]:]
    if kind == "length" and any(body[e[0]] >= 192 for e in evs):
        at, pay, end = rnd.pick([e for e in evs if body[e[0]] >= 192])
        size = rnd.pick((end - pay + 1, max(0, end - pay - 1), n - pay, n - pay + 1, 1 << 31,
                         rnd.int(0, 300), (1 << 64) + 3))
        return body[:at + 1] + ref.varint(size) + body[pay:]
    if kind in ("empty", "shrink", "drop", "repeat") and evs:
        at, pay, end = rnd.pick([e for e in evs if body[e[0]] >= 192] or evs)
        if kind == "drop":
            return body[:at] + body[end:]
        if kind == "repeat":
            return body[:end] + body[at:end] + body[end:]
        if body[at] >= 192:
            keep = rnd.int(0, end - pay) if kind == "shrink" else 0
            return body[:at + 1] + ref.varint(keep) + body[pay:pay + keep] + body[end:]
    return body[:pos] + body[pos + 1:]


KINDS = ("flip", "set", "delete", "insert", "truncate", "extend", "swap", "length", "empty",
         "shrink", "drop", "repeat")


@st.composite
def cases(draw):
    src = Src(draw)
    base = src.pick(("doc", "doc", "flat", "asset"))
    if base == "doc":
        raw = make_doc(src, gen.Opt(channels=2, patterns=1, arrangements=1, inserts=1,
                                    density=40)).raw()
    elif base == "flat":
        raw = flat.make_flat(src).raw()
    else:
        raw = sut.read(src.pick(assets()))
    steps = [(src.pick(KINDS), src.seed()) for _ in range(src.pick((1, 1, 1, 2, 3)))]
    return base, raw, steps


class Damage(Check):
    name = "damage"
    quick = 250
    thorough = 8000
    rule = ("a generated project, flat event list or sample file of the repository whose event data "
            "got 1-3 damages (bit flips, overwritten, removed or inserted bytes, truncation, "
            "appended partial events, swapped, dropped, repeated, emptied or shortened events, wrong lengths), the header's data size made "
            "to match; non-trivial: the damaged bytes differ from the original")

    def strategy(self):
        return cases()

    def describe(self, case):
        base, raw, steps = case
        return {"base": base, "bytes": len(raw), "damage": ["%s#%d" % (k, s % 1000)
                                                            for k, s in steps]}

    def damaged(self, case):
        base, raw, steps = case
        body = raw[22:]
        for kind, seed in steps:
            body = damage(Rnd(seed), body, kind)
        head = ref.check_header(raw)
        return ref.header(head[0], head[1], head[2], len(body)) + body, head

    def run(self, case):
        raw, head = self.damaged(case)
        self.nontrivial = raw != case[1]
        judge(self, raw, head, case[2][0][1])


def judge(check, raw, head, seed):
    body = raw[22:]
    path = sut.write(raw)
    stamp = os.stat(path).st_mtime_ns
    try:
        want = ref.split(body)
    except ref.RefError:
        want = None
    try:
        project = sut.pyflp.parse(path)
    except Exception as e:
        check.tag("refused: " + type(e).__name__)
        project = None
    sut.require(sut.read(path) == raw and os.stat(path).st_mtime_ns == stamp,
                "loading modified the input file")
    if want is None or not body:
        sut.require(project is None, "event data cut off in its last event was accepted: ...%s",
                    body[-24:].hex())
        return
    if project is None:
        return
    check.tag("accepted")
    if seed % 2:
        walk.touch(project, 3)
        check.tag("read before saving")
    got = sut.saved(project)
    try:
        g = ref.load(got)
    except ref.RefError as e:
        raise sut.Violation("the saved file is malformed: %s" % e)
    if list(g[3]) != list(want) or g[:3] != head:
        raise sut.Violation("the saved file isn't what the damaged file holds: %s"
                            % flat.where(got, ref.build(head[0], head[1], head[2], want)))
    sut.require(sut.read(path) == raw, "saving modified the input file")


class Soup(Check):
    name = "soup"
    quick = 200
    thorough = 6000
    rule = ("event data made of random bytes, biased towards event IDs and lengths, after a version "
            "event in most cases; non-trivial: at least 8 bytes")

    def strategy(self):
        return st.tuples(st.booleans(), st.integers(0, 2 ** 32),
                         st.one_of(st.binary(max_size=60),
                                   st.lists(st.sampled_from(sorted(ref.KNOWN) + [
                                       0, 1, 2, 4, 5, 8, 12, 16, 0x80, 0xFF]), max_size=80).map(bytes)))

    def run(self, case):
        version, seed, tail = case
        body = (ref.frame(199, b"20.8.4\0") if version else b"") + tail
        self.nontrivial = len(tail) >= 8
        if not body:
            return
        judge(self, ref.header(0, 3, 96, len(body)) + body, (0, 3, 96), seed)


PARTS = [Damage, Soup]
