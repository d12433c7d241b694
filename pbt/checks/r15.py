from hypothesis import strategies as st

from .. import edits, gen, ref, spec, structure, sut
from ..doc import Ev
from ..engine import Check
from ..spec import Rnd

OPT = gen.Opt(channels=3, patterns=0, arrangements=0, inserts=2, density=10, meta=False,
              want={"channels", "inserts"})


class Plugins(Check):
    name = "plugins"
    quick = 90
    thorough = 2500
    rule = ("generated project with plugins of every supported kind (native in short and "
            "marker-prefixed layout, VST with missing, unknown and reordered sub-records, unknown) "
            "in channels and slots; class and all fields are compared with the reference before "
            "and after 0-8 edits and after reloading; non-trivial: at least one plugin with fields")

    def strategy(self):
        return edits.doc_and_ops(OPT, 0, 8, tags=("plugin",))

    def describe(self, case):
        d = edits.describe(case)
        d["plugins"] = [c["plug_kind"] for c in case[0].channels if c["plugin"]] + \
            [s["plug_kind"] for i in case[0].inserts for s in i["slots"] if s["plugin"]]
        return d

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        fields = doc.by_tag("plugin")
        self.nontrivial = bool(fields)
        structure.check_plugins(project, doc)
        sut.check_all(project, fields)
        find = sut.Finder(project)
        for op in ops:
            f, _ = edits.apply(project, find, doc, op)
            self.tag("edits")
        sut.check_all(project, fields, "after the edits, ")
        structure.check_plugins(project, doc)
        again = sut.load(edits.check_saved(project, doc))
        structure.check_plugins(again, doc)
        sut.check_all(again, fields, "after reloading, ")
        for c in doc.channels:
            if c["plugin"]:
                self.tag("plugin " + (c["plug_kind"]))
        for i in doc.inserts:
            for s in i["slots"]:
                if s["plugin"]:
                    self.tag("plugin " + s["plug_kind"])


@st.composite
def focused(draw):
    src = gen.Src(draw)
    channel = src.chance(40)
    kind = src.pick([k for k in gen.plugin_kinds(channel) if k])
    doc = gen.make_doc(src, gen.Opt(channels=int(channel), patterns=0, arrangements=0,
                                    inserts=int(not channel), density=10, meta=False, force=kind,
                                    want={"channels", "inserts"}))
    return kind, doc, src.seed()


class Each(Check):
    name = "each"
    quick = 60
    thorough = 1500
    rule = ("one or two plugins of a drawn kind; every stored field of one of them is edited once "
            "in random order, some twice, with a check of all fields after every few edits; "
            "non-trivial: at least 3 edits")

    def strategy(self):
        return focused()

    def describe(self, case):
        d = case[1].describe()
        d["kind"] = case[0]
        return d

    def run(self, case):
        kind, doc, seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        fields = doc.by_tag("plugin")
        find = sut.check_all(project, fields)
        order = [i for i in edits.editable(doc, ("plugin",))]
        rnd.r.shuffle(order)
        order = order[:30] + [rnd.pick(order) for _ in range(3) if order]
        for n, i in enumerate(order):
            edits.apply(project, find, doc, edits.Op(i, rnd.int(0, 2 ** 32 - 1), rnd.chance(0.3)))
            if n % 5 == 4:
                sut.check_all(project, fields, "after an edit of %s, " % doc.fields[i].label)
        self.nontrivial = len(order) >= 3
        self.tag("kind " + kind)
        sut.check_all(project, fields, "after the edits, ")
        sut.check_all(sut.load(edits.check_saved(project, doc)), fields, "after reloading, ")


def holders(doc):
    """(path, events, kind) of everything that stores plugin data and a wrapper record."""
    out = [(("channels", i), c["evs"], c["plug_kind"]) for i, c in enumerate(doc.channels)
           if c["plugin"] and c["cls"] == "Instrument"]
    out += [(("mixer", i, s), x["evs"], x["plug_kind"]) for i, ins in enumerate(doc.inserts)
            for s, x in enumerate(ins["slots"]) if x["plugin"]]
    return [h for h in out if structure.first(h[1], 212)]


class Assign(Check):
    name = "assign"
    quick = 60
    thorough = 1500
    rule = ("a supported plugin is assigned to another channel or slot of the same sort; state, "
            "wrapper record and internal name are stored there and nothing else changes; "
            "non-trivial: the two plugins differ")

    def strategy(self):
        return st.tuples(gen.docs(gen.Opt(channels=3, patterns=0, arrangements=0, inserts=3,
                                          density=10, meta=False, want={"channels", "inserts"})),
                         st.integers(0, 2 ** 32 - 1))

    def describe(self, case):
        d = case[0].describe()
        d["plugins"] = [h[2] for h in holders(case[0])]
        return d

    def run(self, case):
        doc, seed = case
        rnd = Rnd(seed)
        hs = holders(doc)
        pairs = [(a, b) for a in hs for b in hs
                 if a is not b and a[0][0] == b[0][0] and b[2] in spec.PLUGIN_CLASS]
        project = sut.load(doc.raw())
        if not pairs:
            return
        a, b = rnd.pick(pairs)
        find = sut.Finder(project)
        with sut.ok("assigning a %s plugin over a %s" % (b[2], a[2])):
            find(a[0]).plugin = find(b[0]).plugin
        self.nontrivial = True
        self.tag("assigned " + b[2])
        ref_a = {e.id: e for e in reversed(a[1])}
        ref_b = {e.id: e for e in reversed(b[1])}
        for id in (212, 213):
            doc.events[next(i for i, e in enumerate(doc.events) if e is ref_a[id])] = \
                Ev(id, ref_b[id].data)
        ref_a[201].data = ref.text_encode(b[2], doc.uni)
        for what, p in (("", project),
                        ("after reloading, ", sut.load(edits.check_saved(project, doc)))):
            with sut.ok("reading the assigned plugin"):
                got = sut.Finder(p)(a[0]).plugin
            sut.require(type(got).__name__ == spec.PLUGIN_CLASS[b[2]], "%sthe assigned plugin is a "
                        "%s, expected %s", what, type(got).__name__, spec.PLUGIN_CLASS[b[2]])


PARTS = [Plugins, Each, Assign]
