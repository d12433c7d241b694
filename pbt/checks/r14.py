import struct

from hypothesis import strategies as st

from .. import edits, gen, spec, structure, sut
from ..doc import Doc, Ev, Slice, Whole
from ..engine import Check
from ..spec import Int, Rnd

OPT = gen.Opt(channels=1, patterns=0, arrangements=0, inserts=5, density=20, want={"inserts"})


class Mixer(Check):
    name = "mixer"
    quick = 60
    thorough = 1800
    rule = ("generated project with up to 5 inserts of up to 10 slots, parameter records partly "
            "missing and in any order; structure, routes and all fields are compared with the "
            "reference before and after 0-8 edits and after reloading; non-trivial: at least 2 "
            "inserts")

    def strategy(self):
        return st.tuples(edits.doc_and_ops(OPT, 0, 8, tags=("mixer",)), st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        return edits.describe(case[0])

    def run(self, case):
        (doc, ops), seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        self.nontrivial = len(doc.inserts) >= 2
        self.tag("inserts", len(doc.inserts))
        structure.check_mixer(project, doc, rnd)
        fields = doc.by_tag("mixer")
        sut.check_all(project, fields)
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        structure.check_mixer(project, doc, rnd)
        absent = [f for f in fields if f.writable and not f.place.present()]
        for f in absent[:4]:
            owner = find(f.path)
            sut.refused("assigning %s, which isn't stored" % f.label, sut.exc.PropertyCannotBeSet,
                        lambda: setattr(owner, f.attr, 1))
        again = sut.load(edits.check_saved(project, doc))
        structure.check_mixer(again, doc, rnd)
        sut.check_all(again, fields, "after reloading, ")


# How many inserts FL Studio had from which version on, as documented by the library.
MOST = [((1, 6, 5), 5), ((2, 0, 1), 8), ((3, 0, 0), 18), ((3, 3, 0), 20), ((4, 0, 0), 64),
        ((9, 0, 0), 105), ((12, 9, 0), 127)]


@st.composite
def sizes(draw):
    k = draw(st.integers(0, len(MOST)))
    if k >= len(MOST) - 1:
        major, top = draw(st.sampled_from([(12, 9, 1), (20, 8, 4, 2576), (21, 0, 3)])), 127
        if k == len(MOST) - 1:
            major = MOST[k][0]
    else:
        (a, b, c), top = MOST[k]
        major = draw(st.sampled_from([(a, b, c), (a, b, c + 1), (a, b, c, 123)]))
    count = draw(st.one_of(st.just(top), st.integers(1, top)))
    return major, count


def big_mixer(version, count, seed):
    """A mixer of `count` small inserts, every one with parameter records."""
    rnd = Rnd(seed)
    doc = Doc()
    doc.version, doc.uni = version, True
    doc.events = [Ev(199, ".".join(map(str, version)).encode() + b"\0")]
    recs = []
    for i in range(count):
        flags = Ev(236, spec.L_INSFLAGS.payload(rnd))
        evs = [flags]
        nslots = rnd.pick((0, 0, 1, 2))
        slots = []
        for s in range(nslots):
            e = Ev(98, struct.pack("<H", s))
            slots.append({"evs": [e], "plugin": None, "plug_kind": "", "name": None})
            evs.append(e)
        routing = Ev(235, bytes(rnd.int(0, 1) for _ in range(count)))
        out = Ev(147, struct.pack("<i", rnd.int(-1, 200)))
        evs += [routing, out]
        doc.events += evs
        doc.inserts.append({"evs": evs, "slots": slots, "routing": routing, "name": None,
                            "flags": flags})
        recs += [(i, 0, id) for id in gen.OWN_PARAMS.values()]
        recs += [(i, 0, 64 + d) for d in ([0, count - 1] if count > 1 else [0])]
        recs += [(i, s, id) for s in range(nslots) for id in (0, 1)]
        doc.add(["mixer", i], "output", Whole(out, Int("i")), "mixer")
    if rnd.chance(0.5):
        rnd.r.shuffle(recs)
    buf = b""
    for i, s, id in recs:
        doc.param_at[i, s if id in (0, 1) else None, id] = len(buf)
        buf += rnd.bytes(4) + struct.pack("<BBHi", id, 31, 1 << 13 | i << 6 | s,
                                          rnd.int(0, 1) if id == 0 else rnd.int(-9999, 99999))
    doc.params = Ev(225, buf)
    doc.events.append(doc.params)
    for i in range(count):
        for attr, id in gen.OWN_PARAMS.items():
            doc.add(["mixer", i], attr,
                    Slice(doc.params, doc.param_at[i, None, id] + 8, Int("i")), "mixer")
        for s in range(len(doc.inserts[i]["slots"])):
            doc.add(["mixer", i, s], "mix", Slice(doc.params, doc.param_at[i, s, 1] + 8, Int("i")),
                    "mixer")
    return doc


class Big(Check):
    name = "big"
    quick = 10
    thorough = 100
    rule = ("a mixer of as many small inserts as the file's version has (up to 127), or fewer, with records "
            "for each; levels, outputs and routes of all of them, then 3 edits; non-trivial: more "
            "than 60 inserts")

    def strategy(self):
        return st.tuples(sizes(), st.integers(0, 2 ** 32 - 1))

    def run(self, case):
        (version, count), seed = case
        doc = big_mixer(version, count, seed)
        project = sut.load(doc.raw())
        rnd = Rnd(seed + 1)
        self.nontrivial = count > 60
        with sut.ok("reading a mixer of %d inserts" % count):
            inserts = list(project.mixer)
            n = len(project.mixer)
            got = [i.iid for i in inserts]
            routes = [list(i.routes) for i in inserts]
        sut.require(n == count and got == structure.insert_iids(count),
                    "%d inserts stored, len() is %d, iids %r", count, n, got)
        for i in range(count):
            sut.require(routes[i] == structure.routes(doc, i), "routes of insert %d are %r, stored "
                        "are %r", i, routes[i], structure.routes(doc, i))
        find = sut.check_all(project, doc.fields)
        for k in range(3):
            edits.apply(project, find, doc, edits.Op(rnd.int(0, len(doc.fields) - 1),
                                                     rnd.int(0, 2 ** 32 - 1), False))
        sut.check_all(sut.load(edits.check_saved(project, doc)), doc.fields, "after reloading, ")


PARTS = [Mixer, Big]
