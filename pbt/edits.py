"""Edit operations on a (project, reference document) pair."""
from hypothesis import strategies as st

from . import gen, ref, sut
from .gen import Src, make_doc
from .spec import Color, Enum, Int, Rnd, Text


class Op:
    """Assign attribute `field` (an index into doc.fields) a value expanded from `seed`."""

    def __init__(self, field, seed, fresh):
        self.field, self.seed, self.fresh = field, seed, fresh


def editable(doc, tags=None, pred=None):
    return [i for i, f in enumerate(doc.fields)
            if f.writable and not f.structural and f.place.present()
            and (tags is None or f.tag in tags) and (pred is None or pred(f))]


def draw_ops(src, doc, lo, hi, tags=None, pred=None, index=editable):
    """Ops spread evenly over areas (tag and owner depth) of the document."""
    pool = index(doc, tags, pred)
    if not pool:
        return []
    areas = {}
    for i in pool:
        f = doc.fields[i]
        key = (f.tag, tuple(p for p in f.path if isinstance(p, str)))
        areas.setdefault(key, []).append(i)
    names = sorted(areas)
    ops = []
    for _ in range(src.int(lo, hi)):
        if ops and src.chance(25):       # back to an earlier field, or a sibling in its event
            f = doc.fields[src.pick(ops).field]
            near = [i for i in pool if doc.fields[i].place.evs()[0] is f.place.evs()[0]]
            i = src.pick(near)
        else:
            i = src.pick(areas[src.pick(names)])
        ops.append(Op(i, src.seed(), src.chance(40)))
    return ops


@st.composite
def doc_and_ops(draw, opt, lo=1, hi=10, tags=None, pred=None):
    src = Src(draw)
    doc = make_doc(src, opt)
    return doc, draw_ops(src, doc, lo, hi, tags, pred)


def _opt(**kw):
    return gen.Opt(**dict(dict(channels=0, patterns=0, arrangements=0, inserts=0, meta=False,
                               density=90, want=set(kw)), **kw))


# (how often, what a small project is made of)
FOCUS = [(5, lambda src, **k: _opt(**k, channels=1, types=(0,))),
         (2, lambda src, **k: _opt(**k, channels=1, types=(2, 4), plugins=False)),
         (1, lambda src, **k: _opt(**k, channels=1, types=(3, 5))),
         (3, lambda src, **k: _opt(**k, channels=1, types=(2, 4), force=src.pick(gen.plugin_kinds(True)[1:]))),
         (5, lambda src, **k: _opt(**k, inserts=1, force=src.pick(gen.plugin_kinds(False)[1:]))),
         (1, lambda src, **k: _opt(**k, inserts=2, plugins=False)),
         (1, lambda src, **k: _opt(**k, patterns=2)),
         (1, lambda src, **k: _opt(**k, arrangements=1)),
         (1, lambda src, **k: _opt(**k, meta=True))]


@st.composite
def focused(draw, **kw):
    """A small project around one part, and a seed."""
    src = Src(draw)
    return make_doc(src, src.pick([f for n, f in FOCUS for _ in range(n)])(src, **kw)), src.seed()


def assign(find, field, value):
    with sut.ok("finding %s" % field.label):
        owner = find(field.path)
    with sut.ok("assigning %s = %r" % (field.label, value)):
        setattr(owner, field.attr, value)


def like(doc, field, rnd):
    """Another stored field of the same kind whose value can be copied as it is, or None."""
    c = field.codec
    if type(c) not in (Int, Enum, Text, Color):
        return None
    pool = [f for f in doc.fields if f.attr == field.attr and f is not field and
            type(f.codec) is type(c) and f.codec.size == c.size and f.place.present() and
            getattr(f.codec, "fmt", 0) == getattr(c, "fmt", 0) and not f.structural]
    return rnd.pick(pool) if pool else None


def apply(project, find, doc, op):
    """Do one edit on both sides, check the read-back; -> (field, value)."""
    field = doc.fields[op.field]
    if op.fresh:
        find = sut.Finder(project)
    cur = sut.check_read(find, field, "before the edit ")
    rnd = Rnd(op.seed)
    twin = like(doc, field, rnd) if rnd.chance(0.12) else None
    if twin is not None:                # make it equal to another one
        value = sut.check_read(find, twin, "before copying it ")
        stored = ref.text_encode(value, doc.uni) if isinstance(twin.codec, Text) else \
            twin.place.get()
    else:
        value, stored = field.codec.new(rnd, cur, field.place.get())
    assign(find, field, value)
    field.place.put(stored)
    sut.check_read(find, field, "after assigning %r, " % (value,))
    return field, value


def describe(case):
    doc, ops = case
    d = doc.describe()
    d["edits"] = ["%s#%d" % (doc.fields[o.field].label, o.seed % 1000) for o in ops]
    return d


def check_saved(project, doc, what="after the edits"):
    want = doc.raw()
    got = sut.saved(project)
    if got == want:
        return got
    from . import ref
    detail = sut.diff(got, want)
    try:
        a, b = ref.load(got)[3], ref.load(want)[3]
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                detail = "event #%d: got id %d %s want id %d %s" % (
                    k, x[0], x[1].hex(), y[0], y[1].hex())
                break
        else:
            if len(a) != len(b):
                detail = "%d events instead of %d" % (len(a), len(b))
    except ref.RefError as e:
        detail += " (%s)" % e
    raise sut.Violation("%s the saved file differs from the reference: %s" % (what, detail))
