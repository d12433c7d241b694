"""Models are live views: every handle sees the same current state."""
import copy
import struct

from hypothesis import strategies as st

from .. import edits, gen, ref, structure, sut, walk
from ..engine import Check
from ..gen import Src, make_doc
from ..spec import Rnd


class AltFinder(sut.Finder):
    """Reaches the same items in varying ways: by position, key, name, slice, listing, current."""

    def __init__(self, project, doc, rnd, tag):
        super().__init__(project)
        self.doc, self.rnd, self.tag = doc, rnd, tag

    def ways(self, parent, i):
        doc, me = self.doc, self(parent)
        if parent == ("channels",):
            iid = doc.channels[i]["iid"]
            name = structure.channel_names(doc)
            yield "channels[iid]", lambda: me[iid]
            yield "channels slice", lambda: me[i:][0]
            attr = {"Automation": "automations", "Instrument": "instruments", "Layer": "layers",
                    "Sampler": "samplers"}.get(doc.channels[i]["cls"])
            if attr:
                yield "channels listing", lambda: next(
                    c for c in getattr(me, attr) if c.iid == iid)
            if name[i] is not None and name.index(name[i]) == i:
                yield "channels[name]", lambda: me[name[i]]
            for k, c in enumerate(doc.channels):
                if c["cls"] == "Layer" and iid in c["children"] and k != i:
                    yield "layer child", lambda k=k: list(me)[k][iid]
            for a, arr in enumerate(doc.arrangements):
                for t, tr in enumerate(arr["tracks"]):
                    for n, it in enumerate(tr["items"]):
                        if it["kind"] == "channel" and it["ref"] == i:
                            yield "playlist item", lambda a=a, t=t, n=n: self(
                                ("arrangements", a, "tracks", t, n)).channel
                            return
        elif parent == ("patterns",):
            name = [structure.text(p["name"], doc) for p in doc.patterns]
            yield "patterns[i]", lambda: me[i]
            yield "patterns slice", lambda: me[:i + 1][-1]
            if name[i] is not None and name.index(name[i]) == i:
                yield "patterns[name]", lambda: me[name[i]]
            sel = doc.meta.get(67)
            if sel and int.from_bytes(sel.data, "little") == doc.patterns[i]["iid"]:
                yield "patterns.current", lambda: me.current
            for a, arr in enumerate(doc.arrangements):
                for t, tr in enumerate(arr["tracks"]):
                    for n, it in enumerate(tr["items"]):
                        if it["kind"] == "pattern" and it["ref"] == i:
                            yield "playlist item", lambda a=a, t=t, n=n: self(
                                ("arrangements", a, "tracks", t, n)).pattern
                            return
        elif parent == ("arrangements",):
            yield "arrangements[i]", lambda: me[i]
            yield "arrangements slice", lambda: me[i:i + 1][0]
            cur = doc.meta.get(100)
            if cur and int.from_bytes(cur.data, "little") == i:
                yield "arrangements.current", lambda: me.current
        elif parent == ("mixer",):
            yield "mixer[iid]", lambda: me[structure.insert_iids(len(doc.inserts))[i]]
            yield "mixer slice", lambda: me[i:][0]
        elif len(parent) == 2 and parent[0] == "mixer":
            yield "insert[i]", lambda: me[i]
            yield "insert slice", lambda: me[::-1][-1 - i]
        elif len(parent) == 4 and parent[2] == "tracks":
            yield "track[i]", lambda: me[i]
            yield "track slice", lambda: me[i:][0]

    def __call__(self, path):
        path = tuple(path)
        if path not in self.memo and path and isinstance(path[-1], int):
            ways = list(self.ways(path[:-1], path[-1]))
            if ways and self.rnd.chance(0.7):
                name, way = self.rnd.pick(ways)
                with sut.ok("reaching item %d through %s" % (path[-1], name)):
                    self.memo[path] = way()
                self.tag("reached by " + name)
        return super().__call__(path)


@st.composite
def cases(draw, opt, hi):
    src = Src(draw)
    doc = make_doc(src, opt)
    ops = edits.draw_ops(src, doc, min(3, hi), hi)
    steps = []
    for op in ops:
        for _ in range(src.pick((0, 0, 1, 1, 2))):
            steps.append((src.pick(("new", "new", "touch", "read", "save")), src.seed()))
        steps.append((op, src.seed()))
    return doc, steps, src.seed()


def describe(case):
    doc, steps, _ = case
    d = doc.describe()
    d["steps"] = [s if isinstance(s, str) else "edit " + doc.fields[s.field].label
                  for s, _ in steps]
    return d


OPT = dict(channels=3, patterns=2, arrangements=1, inserts=2, density=40)


class Live(Check):
    name = "live"
    quick = 60
    thorough = 1500
    rule = ("generated project; 3-8 edits, each through a random one of several sets of handles "
            "obtained at different times in different ways (position, ID, name, slice, listing, "
            "current, layer child, playlist item), with whole-project reads and saves in between; "
            "after each edit the field is read through every handle, at the end every field is; "
            "non-trivial: at least 2 edits over at least 2 sets of handles")

    def strategy(self):
        return cases(gen.Opt(**OPT), 8)

    def describe(self, case):
        return describe(case)

    def run(self, case):
        doc, steps, seed = case
        project = sut.load(doc.raw())
        fields = doc.fields

        def new(s):
            f = AltFinder(project, doc, Rnd(s), self.tag)
            for x in fields:
                with sut.ok("finding %s" % x.label):
                    f(x.path)
            return f
        finders = [new(seed)]
        n = 0
        for step, s in steps:
            rnd = Rnd(s)
            if step == "new":
                if len(finders) < 4:
                    finders.append(new(s))
            elif step == "touch":
                walk.touch(project)
                self.tag("whole-project reads")
            elif step == "save":
                edits.check_saved(project, doc, "after %d edits" % n)
            elif step == "read":
                f = rnd.pick(finders)
                for _ in range(20):
                    sut.check_read(f, rnd.pick(fields), "after %d edits, " % n)
            else:
                f = rnd.pick(finders)
                field, value = edits.apply(project, f, doc, edits.Op(step.field, step.seed, False))
                n += 1
                self.tag("edits")
                near = [x for x in fields if x.path[:2] == field.path[:2]]
                sample = [field] + [rnd.pick(near) for _ in range(8)]
                for k, g in enumerate(finders + [AltFinder(project, doc, rnd, self.tag)]):
                    for x in sample:
                        sut.check_read(g, x, "after assigning %s = %r through %s handles, %s handle "
                                       "of " % (field.label, value, "its" if g is f else "other",
                                                "another" if g is not f else "its"))
        for g in finders + [AltFinder(project, doc, Rnd(seed), self.tag)]:
            for x in fields:
                sut.check_read(g, x, "at the end, ")
        edits.check_saved(project, doc)
        self.nontrivial = n >= 2 and len(finders) >= 2


class Every(Check):
    name = "every"
    quick = 50
    thorough = 1000
    rule = ("a small project around one channel, plugin, insert, pattern, arrangement or the "
            "metadata; every stored attribute (up to 50) assigned through one of two sets of "
            "handles and read through both and a fresh one; in the end every field is; non-trivial: "
            "at least 5 assignments")

    def strategy(self):
        return edits.focused()

    def describe(self, case):
        d = case[0].describe()
        d["seed"] = case[1]
        return d

    def run(self, case):
        doc, seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        finders = [sut.Finder(project), AltFinder(project, doc, rnd, self.tag)]
        for f in finders:
            for x in doc.fields:
                with sut.ok("finding %s" % x.label):
                    f(x.path)
        pool = edits.editable(doc)
        rnd.r.shuffle(pool)
        pool = pool[:50]
        for i in pool:
            f = rnd.pick(finders)
            field, value = edits.apply(project, f, doc, edits.Op(i, rnd.int(0, 2 ** 32 - 1), False))
            for g in finders + [sut.Finder(project)]:
                sut.check_read(g, field, "after assigning %r through %s handle, " % (
                    value, "this" if g is f else "another"))
            self.tag("edits")
        for g in finders:
            for x in doc.fields:
                sut.check_read(g, x, "at the end, ")
        edits.check_saved(project, doc)
        self.nontrivial = len(pool) >= 5


def is_nan(data):   # NaN is not equal to itself
    v = struct.unpack("<f", data)[0]
    return v != v


def models(project):
    out = []
    for name in ("channels", "patterns", "arrangements", "mixer"):
        try:
            coll = list(getattr(project, name))
        except sut.exc.NoModelsFound:
            coll = []
        out.append(coll)
    return out


class Twins(Check):
    name = "twins"
    quick = 50
    thorough = 1500
    rule = ("the same generated file loaded twice; 3-6 edits and edits of header attributes spread over both; each project must "
            "keep reading and saving its own reference; they and their parts compare equal while "
            "their contents are the same and unequal once an edited value differs; non-trivial: at "
            "least 2 edits")

    def strategy(self):
        return cases(gen.Opt(**OPT), 6)

    def describe(self, case):
        return describe(case)

    def header(self, ps, docs):
        for p, d in zip(ps, docs):
            with sut.ok("header attributes"):
                got = p.ppq, p.channel_count, int(p.format)
            sut.require(got == (d.ppq, d.nchan, d.fmt), "PPQ, channel count and format of one of two "
                        "projects are %r, it holds %r", got, (d.ppq, d.nchan, d.fmt))

    def same(self, ps, when):
        with sut.ok("comparing projects"):
            sut.require(ps[0] == ps[1] and not ps[0] != ps[1],
                        "%s two projects with the same contents compare unequal", when)
            a, b = models(ps[0]), models(ps[1])
            for x, y, n in zip(a, b, ("channels", "patterns", "arrangements", "mixer")):
                for i, (p, q) in enumerate(zip(x, y)):
                    sut.require(p == q and not p != q, "%s %s #%d of two projects with the same "
                                "contents compare unequal", when, n, i)
            for e, f in zip(ps[0].events, ps[1].events):
                sut.require(e == f and not e != f, "%s events %r and %r compare unequal", when, e, f)
        self.tag("equal comparisons")

    def differ(self, ps, doc, field):
        """The event which backs a field that differs, and the part owning it, compare unequal."""
        ev = field.place.evs()[0]
        k = next(k for k, e in enumerate(doc.events) if e is ev)
        e, f = list(ps[0].events)[k], list(ps[1].events)[k]
        sut.require(e != f and not e == f, "events with different %s compare equal: %r and %r",
                    field.label, e, f)
        for name, parts in (("channels", doc.channels), ("patterns", doc.patterns),
                            ("arrangements", doc.arrangements), ("mixer", doc.inserts)):
            for i, part in enumerate(parts):
                if any(x is ev for b in part.get("blocks", [part.get("evs")]) for x in b):
                    p, q = (list(getattr(x, name))[i] for x in ps)
                    sut.require(p != q and not p == q, "%s #%d with different %s compare equal",
                                name, i, field.label)
                    self.tag("unequal parts")

    def run(self, case):
        doc, steps, seed = case
        raw = doc.raw()
        docs = [doc, copy.deepcopy(doc)]
        path = sut.write(raw, "twins.flp")
        with sut.ok("loading a file twice"):
            ps = [sut.pyflp.parse(path), sut.pyflp.parse(path)]
        finds = [sut.Finder(p) for p in ps]
        if any(e.id == 140 and is_nan(e.data) for e in doc.events):
            return
        self.same(ps, "freshly loaded,")
        n = 0
        for step, s in steps:
            rnd = Rnd(s)
            if step == "save":      # header attributes
                attr, value = rnd.pick((("ppq", rnd.pick(ref.PPQS)),
                                        ("channel_count", rnd.int(0, 65535)),
                                        ("format", rnd.pick(sorted(ref.FORMATS)))))
                p, d = ps[s % 2], docs[s % 2]
                with sut.ok("setting " + attr):
                    setattr(p, attr, type(p.format)(value) if attr == "format" else value)
                setattr(d, {"channel_count": "nchan", "format": "fmt"}.get(attr, attr), value)
                self.header(ps, docs)
                self.tag("header edits")
                continue
            if isinstance(step, str):
                walk.touch(ps[s % 2])
                continue
            k = s % 2
            op = edits.Op(step.field, step.seed, False)
            field, value = edits.apply(ps[k], finds[k], docs[k], op)
            n += 1
            self.tag("edits")
            for x in [docs[1 - k].fields[step.field]] + [
                    rnd.pick(docs[1 - k].fields) for _ in range(10)]:
                sut.check_read(finds[1 - k], x, "after assigning %s in the other project, "
                               % field.label)
            if docs[0].raw() == docs[1].raw():
                self.same(ps, "after the same edits,")
            else:
                f0, f1 = docs[0].fields[step.field], docs[1].fields[step.field]
                v0, v1 = sut.get(finds[0], f0), sut.get(finds[1], f1)
                if v0 != v1:
                    with sut.ok("comparing projects"):
                        sut.require(ps[0] != ps[1] and not ps[0] == ps[1],
                                    "two projects with different %s (%r and %r) compare equal",
                                    field.label, v0, v1)
                        self.differ(ps, docs[0], f0)
                    self.tag("unequal comparisons")
        self.header(ps, docs)
        for p, d in zip(ps, docs):
            edits.check_saved(p, d)
            sut.check_all(p, d.fields, "at the end, ")
        self.nontrivial = n >= 2


@st.composite
def pairs(draw):
    """Two to three unrelated projects, and a schedule over them."""
    src = Src(draw)
    docs, steps = [], []
    for _ in range(src.pick((2, 2, 3))):
        docs.append(make_doc(src, src.pick((
            lambda: gen.Opt(channels=1, patterns=1, arrangements=1, inserts=1, density=40),
            lambda: src.pick([f for n, f in edits.FOCUS for _ in range(n)])(src)))()))
    for k, d in enumerate(docs):
        steps += [(k, op) for op in edits.draw_ops(src, d, 1, 4)]
        steps += [(k, what) for what in ("load", "read", "save", "touch")[:src.int(0, 4)]]
    order = list(range(len(steps)))
    src.rnd().r.shuffle(order)
    return docs, [steps[i] for i in order], src.seed()


class Others(Check):
    name = "others"
    quick = 30
    thorough = 1000
    rule = ("2-3 unrelated generated projects, of different versions, open at the same time; 1-4 "
            "edits of each, reads, saves, whole-project reads and further loads of their files, "
            "interleaved at random; each project reads and saves its own reference throughout; "
            "non-trivial: at least 2 of the projects were edited")

    def strategy(self):
        return pairs()

    def describe(self, case):
        docs, steps, _ = case
        return {"projects": [d.describe() for d in docs],
                "steps": ["#%d %s" % (k, s if isinstance(s, str) else
                                      "edit " + docs[k].fields[s.field].label) for k, s in steps]}

    def run(self, case):
        docs, steps, seed = case
        rnd = Rnd(seed)
        raws = [d.raw() for d in docs]
        ps = [sut.load(r, "p%d.flp" % k) for k, r in enumerate(raws)]
        finds = [sut.Finder(p) for p in ps]
        edited = set()
        for k, step in steps:
            d = docs[k]
            if step == "load":
                again = sut.load(raws[k], "again.flp")
                got = sut.saved(again)
                sut.require(got == raws[k], "project #%d, loaded again while others are open, saves "
                            "differently: %s", k, sut.diff(got, raws[k]))
            elif step == "save":
                edits.check_saved(ps[k], d, "while other projects are open")
            elif step == "touch":
                walk.touch(ps[k])
            elif step == "read":
                for x in d.fields:
                    sut.check_read(finds[k], x, "with other projects open, ")
            else:
                field, value = edits.apply(ps[k], finds[k], d, edits.Op(step.field, step.seed, False))
                edited.add(k)
                self.tag("edits")
            for j, o in enumerate(docs):
                if j != k and o.fields:
                    for _ in range(5):
                        sut.check_read(finds[j], rnd.pick(o.fields), "after %s project #%d, " % (
                            "an edit of" if not isinstance(step, str) else "a %s of" % step, k))
        for k, (p, d) in enumerate(zip(ps, docs)):
            for x in d.fields:
                sut.check_read(finds[k], x, "at the end, ")
            sut.check_all(p, d.fields, "at the end, ")
            edits.check_saved(p, d, "at the end")
        self.nontrivial = len(edited) >= 2


class Reading(Check):
    name = "reading"
    quick = 50
    thorough = 1500
    rule = ("generated project; reading every public attribute, iterating, comparing, printing and "
            "looking up missing items, 1-3 times over; afterwards everything reads and saves as "
            "before; non-trivial: at least 60 stored fields")

    def strategy(self):
        return cases(gen.Opt(channels=4, patterns=2, arrangements=2, inserts=2, density=60), 1)

    def describe(self, case):
        return case[0].describe()

    def run(self, case):
        doc, steps, seed = case
        rnd = Rnd(seed)
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        if rnd.chance(0.5):
            for x in doc.fields:
                sut.check_read(find, x)
        for _ in range(rnd.int(1, 3)):
            walk.touch(project)
            for part in [project] + [getattr(project, n) for n in (
                    "channels", "patterns", "arrangements", "mixer")] + sum(models(project), []):
                try:
                    repr(part)
                    str(part)
                    bool(part == part)
                except Exception:
                    pass
                for key in (10 ** 6, "no such \x01 name"):
                    try:
                        part[key]
                    except Exception:
                        pass
        for x in doc.fields:
            sut.check_read(find, x, "after reading everything, ")
        sut.check_all(project, doc.fields, "after reading everything (fresh handles), ")
        edits.check_saved(project, doc, "after reading everything")
        self.nontrivial = sum(f.place.present() for f in doc.fields) >= 60


class Refs(Check):
    name = "refs"
    quick = 40
    thorough = 1000
    rule = ("generated playlists; 2-6 reassignments of what an item refers to, each through one of "
            "several handles of it; all handles must refer to the stored channel or pattern; "
            "non-trivial: a reference changed through one handle was read through another")

    def strategy(self):
        return st.tuples(gen.docs(gen.Opt(channels=3, patterns=3, arrangements=2, inserts=0,
                                          density=10, plugins=False,
                                          want={"arrangements", "channels", "patterns"})),
                         st.lists(st.integers(0, 2 ** 32 - 1), min_size=2, max_size=6))

    def describe(self, case):
        return case[0].describe()

    def run(self, case):
        doc, seeds = case
        project = sut.load(doc.raw())
        places = [(i, t, k, it) for i, a in enumerate(doc.arrangements)
                  for t, tr in enumerate(a["tracks"]) for k, it in enumerate(tr["items"])]
        if not places:
            return

        def grab():
            with sut.ok("playlist items"):
                tracks = [list(a.tracks) for a in project.arrangements]
                return [tracks[i][t][k] for i, t, k, _ in places]
        sets = [grab()]
        for s in seeds:
            rnd = Rnd(s)
            if rnd.chance(0.5) and len(sets) < 4:
                sets.append(grab())
            n = rnd.int(0, len(places) - 1)
            i, t, k, it = places[n]
            by = rnd.pick(sets)
            attr, coll = (("channel", doc.channels) if it["kind"] == "channel"
                          else ("pattern", doc.patterns))
            new = rnd.int(0, len(coll) - 1)
            with sut.ok("assigning .%s of a playlist item" % attr):
                setattr(by[n], attr, list(getattr(project, attr + "s"))[new])
            idx = coll[new]["iid"] + (20480 if attr == "pattern" else 0)
            it["ref"] = new
            pl = doc.arrangements[i]["playlist"]
            pl.data = pl.data[:it["off"] + 6] + struct.pack("<H", idx) + pl.data[it["off"] + 8:]
            self.tag("references set")
            if len(sets) > 1:
                self.nontrivial = True
            for items in sets + [grab()]:
                for (_, _, _, w), item in zip(places, items):
                    attr, coll = (("channel", doc.channels) if w["kind"] == "channel"
                                  else ("pattern", doc.patterns))
                    with sut.ok("reading .%s of a playlist item" % attr):
                        got = getattr(item, attr).iid
                    sut.require(got == coll[w["ref"]]["iid"], "a handle of a playlist item refers "
                                "to %s %r, stored is %d", attr, got, coll[w["ref"]]["iid"])
        edits.check_saved(project, doc)


PARTS = [Live, Every, Twins, Others, Reading, Refs]
