"""Everything reachable can be printed, and the text shows the current state."""
import collections.abc
import inspect

from .. import edits, gen, sut
from ..engine import Check
from ..walk import METHODS

PLAIN = (int, float, str, bytes, tuple)


def collect(obj, out, path, depth=6):
    """(path, object) of everything reachable through public attributes and iteration."""
    if depth < 0 or obj is None or isinstance(obj, PLAIN):
        return
    if isinstance(obj, dict):
        for k, v in obj.items():
            collect(v, out, "%s[%r]" % (path, k), depth - 1)
        return
    mod = type(obj).__module__
    if not mod.startswith("pyflp") or mod.startswith("pyflp._events"):
        return
    out.append((path, obj))
    for name in dir(type(obj)):
        if name.startswith("_") or name in ("events", "data"):
            continue
        if isinstance(inspect.getattr_static(type(obj), name, None), METHODS):
            continue
        try:
            v = getattr(obj, name)
            if isinstance(v, collections.abc.Iterator):
                v = list(v)
        except Exception:
            continue
        sub = "%s.%s" % (path, name)
        for i, x in enumerate(v if isinstance(v, list) else [v]):
            collect(x, out, "%s[%d]" % (sub, i) if isinstance(v, list) else sub, depth - 1)
    if hasattr(type(obj), "__iter__"):
        try:
            items = list(obj)
        except Exception:
            return
        for i, x in enumerate(items):
            collect(x, out, "%s[%d]" % (path, i), depth - 1)


COLLECTIONS = ("ChannelRack", "Patterns", "Arrangements", "Mixer")


def must_show(obj):
    """Texts which identify the object."""
    t = type(obj).__name__
    if t in ("Channel", "Instrument", "Layer", "Sampler", "Automation"):
        return [repr(obj.display_name), str(obj.iid)] + (
            [repr(obj.sample_path)] if t == "Sampler" else []) + (
            [str(len(obj))] if t == "Layer" else [])
    if t == "Insert":
        return [repr(obj.name), str(obj.iid)]
    if t == "Slot":
        return [str(obj.name), str(obj.index)]
    if t == "Track":
        return [str(obj.name), str(obj.iid), str(len(obj))]
    if t == "Arrangement":
        return [str(obj.iid), repr(obj.name), str(len(list(obj.tracks))),
                str(len(list(obj.timemarkers)))]
    if t == "Pattern":
        return [str(obj.iid), repr(obj.name), str(len(list(obj.notes)))]
    if t == "Note":
        return [str(obj.key), str(obj.position), str(obj.length), str(obj.rack_channel)]
    if t in ("DisplayGroup", "TimeMarker"):
        return [obj.name] if obj.name and obj.name.isprintable() and not set(obj.name) & set("'\\") \
            else []
    if t == "VSTPlugin":
        return [repr(getattr(obj, "name", None)), repr(getattr(obj, "vendor", None))]
    if t in COLLECTIONS:
        try:
            return [str(len(obj))]
        except sut.exc.NoModelsFound:
            return []
    return []


def printed(path, obj):
    texts = []
    for f in (repr, str):
        try:
            text = f(obj)
        except sut.exc.NoModelsFound:
            if type(obj).__name__ in COLLECTIONS:
                return None
            raise sut.Violation("%s() of %s raised NoModelsFound" % (f.__name__, path))
        except Exception as e:
            raise sut.Violation("%s() of %s (%s) raised %r" % (f.__name__, path,
                                                               type(obj).__name__, e))
        sut.require(isinstance(text, str) and text, "%s() of %s is %r", f.__name__, path, text)
        texts.append(text)
    return texts


class Printing(Check):
    name = "printing"
    quick = 45
    thorough = 1300
    rule = ("generated project, 0-4 edits; repr() and str() of every event, every view and every "
            "reachable object, before and after the edits: no failure, and named or numbered "
            "objects show their current name, number and counts; afterwards the project saves as "
            "the reference says; non-trivial: at least 30 objects printed")

    def strategy(self):
        return edits.doc_and_ops(gen.Opt(channels=2, patterns=2, arrangements=1, inserts=2,
                                         density=50), 0, 4)

    def describe(self, case):
        return edits.describe(case)

    def look(self, project, when):
        out = []
        collect(project, out, "project")
        with sut.ok("printing events"):
            for e in [project.events] + list(project.events):
                sut.require(repr(e) and str(e), "an event is printed as nothing")
        for path, obj in out:
            texts = printed(path, obj)
            self.tag(type(obj).__name__)
            if texts is None:
                continue
            if getattr(obj, "events", None) is not None:
                printed(path + ".events", obj.events)
            with sut.ok("reading what identifies %s" % path):
                want = must_show(obj)
            for w in want:
                sut.require(any(w in t for t in texts), "%s%s is printed as %r, which doesn't show "
                            "%r", when, path, texts[0][:300], w)
        return len(out)

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        n = self.look(project, "")
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        if ops:
            self.look(project, "after edits, ")
        edits.check_saved(project, doc, "after printing everything")
        self.nontrivial = n >= 30


class Eq(Check):
    """Sizes of the mixer EQ, which printing shows as well."""
    name = "eq"
    quick = 30
    thorough = 800
    rule = ("generated mixers with parameter records partly missing; the size of an EQ and its "
            "bands is 12 bytes per stored record; non-trivial: at least one insert with records")

    def strategy(self):
        return gen.docs(gen.Opt(channels=0, patterns=0, arrangements=0, inserts=4, density=20,
                                want={"inserts"}))

    def describe(self, case):
        return case.describe()

    def run(self, doc):
        project = sut.load(doc.raw())
        for i, ins in enumerate(project.mixer):
            with sut.ok("EQ of insert #%d" % i):
                eq = ins.eq
                bands = [eq.low, eq.mid, eq.high]
                sizes = [b.size for b in bands]
                want = [12 * sum(getattr(b, a) is not None for a in ("freq", "gain", "reso"))
                        for b in bands]
                total = eq.size
            sut.require(sizes == want and total == sum(want), "sizes of the EQ of insert #%d are "
                        "%r (%r in total), stored are %r", i, sizes, total, want)
            self.nontrivial |= total > 0


PARTS = [Printing, Eq]
