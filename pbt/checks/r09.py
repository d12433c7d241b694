"""Refused edits raise the documented error and change nothing."""
from hypothesis import strategies as st

from .. import edits, gen, ref, sut
from ..doc import show
from ..engine import Check
from ..gen import Src, make_doc
from ..spec import Bool, Color, Rnd

BAD_VERSIONS = ["20", "20.8", "1.2.3.4.5", "", "a.b.c", "20.x.1", "20..1", (20,), (20, 8),
                (1, 2, 3, 4, 5), ()]
BAD_KEYS = ["", "C", "H4", "c5", "C#", "#4", "5C", "Cb4", "D-1", "C5x", "B 3", "C11", "C#12", "F#99",
            132, 133, 255, 256, -1, 65536]


def tempo_limit(parts):
    v = tuple(parts) + (0,) * (4 - len(parts))
    return 999.0 if (1, 4, 2, 0) <= v < (11, 0, 0, 0) else 522.0


def bad_tempo(doc, rnd):
    """-> (value, exception) refused for this file."""
    present = any(i in doc.meta for i in (156, 66))
    v = tuple(doc.version) + (0,) * (3 - len(doc.version))
    top = tempo_limit(doc.version)
    if not present:
        return rnd.pick((120, 130.5, 10, 500)), sut.exc.PropertyCannotBeSet
    old = v[:3] < (3, 4, 0)
    if old and rnd.chance(0.5):
        return rnd.pick((120.0, 130.5, 11.0)), TypeError
    vals = (9, 0, -1, -120, int(top) + 1, 2000, 10 ** 9)
    if not old:
        vals += (9.999, top + 0.001, 0.0, -0.5, 1e9, top + 0.5, 9.9, float("inf"), float("-inf"),
                 float("nan"))
    return rnd.pick(vals), ValueError


READONLY = {
    "project": [((), "created_on"), ((), "time_spent")],
    "channel": [((), "zipped"), ((), "group"), ((), "display_name")],
    "insert": [((), "dock"), ((), "iid")],
    "marker": [((), "position"), ((), "type")],
    "point": [((), "position")],
}


def owners(doc, what):
    if what == "project":
        return [()]
    if what == "channel":
        return [("channels", i) for i in range(len(doc.channels))]
    if what == "insert":
        return [("mixer", i) for i in range(len(doc.inserts))]
    if what == "marker":
        out = [("patterns", i, "timemarkers", k) for i, p in enumerate(doc.patterns)
               for k in range(len(p["markers"]))]
        return out + [("arrangements", i, "timemarkers", k) for i, a in enumerate(doc.arrangements)
                      for k in range(len(a["markers"]))]
    return [("channels", i, k) for i, c in enumerate(doc.channels) if c["cls"] == "Automation"
            for k in range(c["points"])]


def draw_refusals(src, doc, n):
    absent = [i for i, f in enumerate(doc.fields) if f.writable and not f.place.present()]
    notes = [i for i, f in enumerate(doc.fields) if f.attr == "key" and f.tag == "pattern"]
    areas = {}
    for i in absent:
        f = doc.fields[i]
        areas.setdefault((f.tag, tuple(p for p in f.path if isinstance(p, str))), []).append(i)
    names = sorted(areas)
    out = []
    for _ in range(n):
        k = src.pick(("absent", "absent", "absent", "ppq", "nchan", "tempo", "version", "key",
                      "readonly", "readonly"))
        seed = src.seed()
        if k == "absent" and names:
            out.append((k, src.pick(areas[src.pick(names)]), seed))
        elif k == "key" and notes:
            out.append((k, src.pick(notes), seed))
        elif k in ("ppq", "nchan", "tempo", "version"):
            out.append((k, None, seed))
        elif k == "readonly":
            what = src.pick(sorted(READONLY))
            own = owners(doc, what)
            if own:
                out.append((k, (src.pick(own), src.pick(READONLY[what])), seed))
    return out


@st.composite
def cases(draw, opt, hi):
    src = Src(draw)
    doc = make_doc(src, opt)
    ops = edits.draw_ops(src, doc, 0, 2)
    return doc, ops, draw_refusals(src, doc, src.int(1, hi))


def value_for(field, rnd):
    """Something assignable to a field that isn't stored."""
    c = field.codec
    if c.flag or isinstance(c, Bool):
        return rnd.chance(0.5)
    if isinstance(c, Color):
        from pyflp.types import RGBA
        return RGBA(*c.dec(c.gen(rnd)))
    try:
        return c.dec(c.gen(rnd))
    except Exception:
        return 1


class Refused(Check):
    name = "refused"
    quick = 70
    thorough = 2000
    rule = ("generated project with absent events and fields, 0-2 legal edits, then 1-8 edits that "
            "must be refused; each must raise the documented error and leave the saved bytes and "
            "every attribute as before; non-trivial: at least 2 refusals")
    opt = gen.Opt(channels=2, patterns=1, arrangements=1, inserts=2, density=45)

    def strategy(self):
        return cases(self.opt, 8)

    def describe(self, case):
        doc, ops, bad = case
        d = doc.describe()
        d["refused"] = [k if i is None else
                        "%s %s" % (k, doc.fields[i].label if isinstance(i, int) else
                                   show(i[0]) + "." + i[1][1]) for k, i, _ in bad]
        return d

    def refuse(self, project, find, doc, k, i, seed):
        rnd = Rnd(seed)
        if k == "absent":
            f = doc.fields[i]
            with sut.ok("finding %s" % f.label):
                owner = find(f.path)
            v = value_for(f, rnd)
            sut.refused("assigning %s = %r although it isn't stored" % (f.label, v),
                        sut.exc.PropertyCannotBeSet, lambda: setattr(owner, f.attr, v))
            return f.label
        if k == "key":
            f = doc.fields[i]
            owner = find(f.path)
            v = rnd.pick(BAD_KEYS)
            sut.refused("assigning %s = %r" % (f.label, v), ValueError,
                        lambda: setattr(owner, "key", v))
            return "key %r" % (v,)
        if k == "readonly":
            path, (sub, attr) = i
            with sut.ok("finding %s" % show(path)):
                owner = find(path + sub)
            v = rnd.pick((1, "x", True, 0, owner))
            sut.refused("assigning read-only %s.%s" % (show(path), attr), AttributeError,
                        lambda: setattr(owner, attr, v))
            return attr
        if k == "ppq":
            v = rnd.pick((0, 1, 23, 95, 97, 100, 240, 480, 961, 1920, -96, 65535, 70000))
            sut.refused("ppq = %r" % v, ValueError, lambda: setattr(project, "ppq", v))
        elif k == "nchan":
            v = rnd.pick((-1, -2, -65536, -10 ** 9))
            sut.refused("channel_count = %r" % v, ValueError,
                        lambda: setattr(project, "channel_count", v))
        elif k == "tempo":
            v, e = bad_tempo(doc, rnd)
            sut.refused("tempo = %r in a file of version %s" % (v, doc.version), e,
                        lambda: setattr(project, "tempo", v))
        elif k == "version":
            v = rnd.pick(BAD_VERSIONS)
            sut.refused("version = %r" % (v,), ValueError, lambda: setattr(project, "version", v))
        return k

    def run(self, case):
        doc, ops, bad = case
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        for op in ops:
            edits.apply(project, find, doc, op)
        head = (project.ppq, project.channel_count, str(project.version), project.tempo)
        self.nontrivial = len(bad) >= 2
        for k, i, seed in bad:
            label = self.refuse(project, find, doc, k, i, seed)
            self.tag("refused " + k)
            edits.check_saved(project, doc, "after the refused edit of %s" % label)
        now = (project.ppq, project.channel_count, str(project.version), project.tempo)
        sut.require(now == head, "after refused edits the header attributes are %r, before %r",
                    now, head)
        for f in doc.fields:
            sut.check_read(find, f, "after refused edits, ")
        sut.check_all(project, doc.fields, "after refused edits (fresh handles), ")


class Sparse(Refused):
    name = "sparse"
    quick = 100
    thorough = 1500
    rule = ("a project of few events, every absent attribute assigned; each assignment must "
            "raise PropertyCannotBeSet; non-trivial: at least 5 refusals")

    def strategy(self):
        @st.composite
        def s(draw):
            src = Src(draw)
            if src.chance(50):
                doc = make_doc(src, gen.Opt(channels=2, patterns=1, arrangements=1, inserts=2,
                                            density=20))
            else:
                doc = src.draw(edits.focused(density=30))[0]
            return doc, [], [("absent", i, src.seed()) for i in
                             [i for i, f in enumerate(doc.fields)
                              if f.writable and not f.place.present()]]
        return s()

    def run(self, case):
        doc, _, bad = case
        project = sut.load(doc.raw())
        find = sut.Finder(project)
        self.nontrivial = len(bad) >= 5
        for k, i, seed in bad:
            self.refuse(project, find, doc, k, i, seed)
            self.tag("refused " + k)
        edits.check_saved(project, doc, "after the refused edits")
        for f in doc.fields:
            sut.check_read(find, f, "after refused edits, ")


PARTS = [Refused, Sparse]
