"""Reference documents: events grouped by construction, plus the attribute fields they back."""
from . import ref


class Ev:
    __slots__ = ("id", "data")

    def __init__(self, id, data):
        self.id, self.data = id, data

    def __repr__(self):
        d = self.data
        return "Ev(%d, %s%s)" % (self.id, d[:24].hex(), "..(%d)" % len(d) if len(d) > 24 else "")


class VstEv:
    """Plugin data of a VST: a type word and a list of [record id, bytes]."""
    __slots__ = ("id", "head", "recs", "tail")

    def __init__(self, head, recs, tail=b""):
        self.id, self.head, self.recs, self.tail = 213, head, recs, tail

    @property
    def data(self):
        return self.head + b"".join(
            i.to_bytes(4, "little") + len(d).to_bytes(8, "little") + d for i, d in self.recs) + self.tail

    def rec(self, id):
        for r in self.recs:
            if r[0] == id:
                return r

    def __repr__(self):
        return "VstEv(%s, %r)" % (self.head.hex(), [(i, d.hex()[:40]) for i, d in self.recs])


# -- places in the document that hold one value ----------------------------------
class Slice:
    """codec.size bytes at `off` of an event; absent when the event is missing or ends before."""

    def __init__(self, ev, off, codec):
        self.ev, self.off, self.codec = ev, off, codec

    def present(self):
        return self.ev is not None and len(self.ev.data) >= self.off + self.codec.size

    def get(self):
        return self.ev.data[self.off:self.off + self.codec.size]

    def put(self, b):
        d = self.ev.data
        self.ev.data = d[:self.off] + b + d[self.off + len(b):]

    def evs(self):
        return [self.ev]


class Whole(Slice):
    """A complete payload."""

    def __init__(self, ev, codec):
        super().__init__(ev, 0, codec)

    def present(self):
        return self.ev is not None

    def get(self):
        return self.ev.data

    def put(self, b):
        self.ev.data = b


class Last(Slice):
    """The last byte of a payload."""

    def __init__(self, ev, codec):
        super().__init__(ev, 0, codec)

    def get(self):
        return self.ev.data[-1:]

    def put(self, b):
        self.ev.data = self.ev.data[:-1] + b


class Between(Slice):
    """Everything but the first `off` and last `end` bytes."""

    def __init__(self, ev, off, end, codec):
        super().__init__(ev, off, codec)
        self.end = end

    def present(self):
        return True

    def get(self):
        return self.ev.data[self.off:-self.end]

    def put(self, b):
        self.ev.data = self.ev.data[:self.off] + b + self.ev.data[-self.end:]


class Rec:
    """Part of (or a whole) VST record."""

    def __init__(self, ev, rec, off, codec):
        self.ev, self.rec, self.off, self.codec = ev, rec, off, codec

    def present(self):
        r = self.ev.rec(self.rec)
        return r is not None and (self.off is None or len(r[1]) >= self.off + self.codec.size)

    def get(self):
        d = self.ev.rec(self.rec)[1]
        return d if self.off is None else d[self.off:self.off + self.codec.size]

    def put(self, b):
        r = self.ev.rec(self.rec)
        if self.off is None:
            r[1] = b
        else:
            r[1] = r[1][:self.off] + b + r[1][self.off + len(b):]

    def evs(self):
        return [self.ev]


class Field:
    """One public attribute and the place that backs it."""
    structural = False  # an edit would change how other parts are found

    def __init__(self, path, attr, place, tag, default=None, writable=True, raises=False):
        self.path, self.attr, self.place, self.tag = tuple(path), attr, place, tag
        self.default, self.writable = default, writable
        self.raises = raises  # reading raises AttributeError when absent

    @property
    def label(self):
        return show(self.path) + "." + self.attr

    @property
    def codec(self):
        return self.place.codec

    def expect(self):
        """Readable form of what must be read."""
        if self.place.present():
            return self.codec.dec(self.place.get())
        return self.default

    def __repr__(self):
        return "Field(%s)" % self.label


def show(path):
    out = "project"
    for p in path:
        out += "[%d]" % p if isinstance(p, int) else "[%r]" % p[1] if isinstance(p, tuple) else "." + p
    return out


class Doc:
    def __init__(self):
        self.fmt, self.nchan, self.ppq = 0, 0, 96
        self.version = (20, 8, 4)
        self.uni = True
        self.events = []      # in file order
        self.fields = []
        # structure, by construction
        self.meta = {}        # id -> Ev of project level events
        self.groups = []      # Ev
        self.channels = []    # dict(iid, type, cls, group, evs, children, name)
        self.patterns = []    # dict(iid, evs, notes, ctrls, markers, name)
        self.arrangements = []  # dict(iid, evs, tracks, playlist, markers)
        self.inserts = []     # dict(evs, slots)
        self.params = None    # Ev(225)
        self.param_at = {}    # (insert, slot or None, id) -> offset

    def raw(self):
        return ref.build(self.fmt, self.nchan, self.ppq, [(e.id, e.data) for e in self.events])

    def by_tag(self, *tags):
        return [f for f in self.fields if f.tag in tags]

    def add(self, *a, **k):
        f = Field(*a, **k)
        self.fields.append(f)
        return f

    def describe(self):
        return {"version": ".".join(map(str, self.version)), "format": self.fmt, "ppq": self.ppq,
                "nchan": self.nchan, "events": len(self.events),
                "channels": ["%d:%s" % (c["iid"], c["cls"]) for c in self.channels],
                "patterns": ["%d:%dn%dc%dm" % (p["iid"], len(p["notes"]), len(p["ctrls"]),
                                               len(p["markers"])) for p in self.patterns],
                "arrangements": ["%dtr/%dit" % (len(a["tracks"]), len(a["items"]))
                                 for a in self.arrangements],
                "inserts": [len(i["slots"]) for i in self.inserts]}
