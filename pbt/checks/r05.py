from hypothesis import strategies as st

from .. import gen, structure, sut
from ..engine import Check

ENV = ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")
GROUPS = (("tracking", 228, ("volume", "keyboard"), ("Sampler", "Instrument")),
          ("envelopes", 218, ENV, ("Sampler",)), ("lfos", 218, ENV, ("Sampler",)))


class Reads(Check):
    name = "reads"
    quick = 60
    thorough = 1500
    rule = ("generated project with up to 4 channels of every type; every readable attribute is "
            "compared with the reference field; non-trivial: at least 20 stored channel fields")

    def strategy(self):
        return gen.docs(gen.Opt(channels=4, patterns=1, arrangements=0, inserts=1, want={"channels"}))

    def describe(self, doc):
        return doc.describe()

    def run(self, doc):
        project = sut.load(doc.raw())
        fields = doc.by_tag("channel")
        stored = sum(f.place.present() for f in fields)
        self.nontrivial = stored >= 20
        self.tag("fields", len(fields))
        self.tag("stored fields", stored)
        find = sut.check_all(project, fields)
        names = structure.channel_names(doc)
        for i, c in enumerate(doc.channels):
            with sut.ok("display name of channel #%d" % i):
                dn = find(("channels", i)).display_name
            sut.require(dn == names[i], "channel #%d has display name %r, stored is %r", i, dn,
                        names[i])
            for attr, id, keys, classes in GROUPS:
                if c["cls"] not in classes:
                    continue
                n = sum(e.id == id for e in c["evs"])
                with sut.ok("channel #%d .%s" % (i, attr)):
                    got = getattr(find(("channels", i)), attr)
                    got = None if got is None else list(got)
                want = list(keys[:n]) or None
                sut.require(got == want, "channel #%d .%s has %r, stored are %r", i, attr,
                            got, want)


PARTS = [Reads]
