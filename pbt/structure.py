"""Compares the collections a project exposes with the reference document's."""
import itertools
import struct

from . import ref, spec, sut
from .sut import MISSING, ok, require

NOT_FOUND = (sut.exc.ModelNotFound, LookupError)


def index_of(doc):
    return {id(e): i for i, e in enumerate(doc.events)}


def check_owns(what, tree, evs, doc, prefix):
    """The view holds nothing outside `evs` and every event of `evs` that backs a field of it."""
    idx = index_of(doc)
    mine = {idx[id(e)] for e in evs}
    n = len(prefix)
    needed = {idx[id(e)] for f in doc.fields if f.path[:n] == tuple(prefix) and f.place.present()
              for e in f.place.evs() if id(e) in idx} & mine
    with ok("indexes of %s" % what):
        got = set(tree.indexes)
    require(got <= mine, "%s owns events %r stored outside of it", what, sorted(got - mine))
    require(needed <= got, "%s misses its own events %r", what, sorted(needed - got))


def check_count(what, coll, n):
    """len() agrees; an empty collection may report that there is nothing instead."""
    try:
        got = len(coll)
    except sut.exc.NoModelsFound:
        require(n == 0, "%s reports no models, but %d are stored", what, n)
        return
    except Exception as e:
        raise sut.Violation("len(%s) raised %r" % (what, e))
    require(got == n, "len(%s) is %d, but %d are stored", what, got, n)


def check_slices(what, coll, ident, want, cuts):
    """Slices equal the same slices of the list."""
    for cut in cuts:
        with ok("%s[%r]" % (what, cut)):
            got = [ident(x) for x in coll[cut]]
        require(got == want[cut], "%s[%r] gives %r, expected %r", what, cut, got, want[cut])


def missing(what, func):
    try:
        got = func()
    except NOT_FOUND:
        return
    except Exception as e:
        raise sut.Violation("%s raised %r instead of reporting it as not found" % (what, e))
    raise sut.Violation("%s gave %r although there is no such item" % (what, got))


def cuts(rnd, n):
    def e():
        return rnd.pick((None, 0, 1, -1, n, -n, rnd.int(0, max(n, 1)), -rnd.int(0, max(n, 1))))
    out = [slice(None), slice(e(), e()), slice(e(), e(), rnd.pick((None, 1, 2, -1)))]
    return out


def text(ev, doc):
    return None if ev is None else ref.text_decode(ev.data, doc.uni)


def first(evs, *ids):
    for i in ids:
        for e in evs:
            if e.id == i:
                return e


# -- channels ------------------------------------------------------------------------
def channel_names(doc):
    """display names, by position"""
    out = []
    for c in doc.channels:
        n = text(first(c["evs"], 203, 192), doc)
        out.append(n or text(first(c["evs"], 201), doc))
    return out


def check_channels(project, doc, rnd):
    with ok("project.channels"):
        rack = project.channels
        chans = list(rack)
    want = [c["iid"] for c in doc.channels]
    with ok("channel iids"):
        got = [c.iid for c in chans]
    require(got == want, "channels have IDs %r, stored are %r", got, want)
    check_count("channels", rack, len(want))
    names = channel_names(doc)
    for i, (c, d) in enumerate(zip(chans, doc.channels)):
        what = "channels[%d] (iid %d)" % (i, d["iid"])
        require(type(c).__name__ == d["cls"], "%s of type %d is a %s, expected %s", what, d["type"],
                type(c).__name__, d["cls"])
        with ok("%s group" % what):
            g = c.group.name
        require(g == text(doc.groups[d["group"]], doc), "%s is in group %r, expected %r (#%d)", what,
                g, text(doc.groups[d["group"]], doc), d["group"])
        with ok("%s display_name" % what):
            dn = c.display_name
        require(dn == names[i], "%s has display name %r, expected %r", what, dn, names[i])
        check_owns(what, c.events, d["evs"], doc, ["channels", i])
        if d["cls"] == "Layer":
            check_layer(what, c, d, doc, rnd)
        if d["cls"] == "Automation":
            check_points(what, c, d, rnd)
    for attr, cls in (("automations", "Automation"), ("instruments", "Instrument"),
                      ("layers", "Layer"), ("samplers", "Sampler")):
        with ok("channels.%s" % attr):
            got = [c.iid for c in getattr(rack, attr)]
        w = [c["iid"] for c in doc.channels if c["cls"] == cls]
        require(got == w, "channels.%s are %r, expected %r", attr, got, w)
    for i, iid in enumerate(want):
        with ok("channels[%d]" % iid):
            got = rack[iid]
        require(got.iid == iid and got.events.indexes == chans[i].events.indexes,
                "channels[%d] gives channel %r", iid, got.iid)
        if names[i] is not None:
            with ok("channels[%r]" % names[i]):
                got = rack[names[i]]
            k = names.index(names[i])
            require(got.iid == want[k], "channels[%r] is channel %d, expected %d", names[i], got.iid,
                    want[k])
    absent = next(x for x in itertools.count(rnd.int(0, 30)) if x not in want)
    missing("channels[%d]" % absent, lambda: rack[absent])
    missing("channels['no such name']", lambda: rack["no such \x01 name"])
    check_slices("channels", rack, lambda c: c.iid, want, cuts(rnd, len(want)))
    with ok("channel groups"):
        got = [g.name for g in rack.groups]
    w = [text(g, doc) for g in doc.groups]
    require(got == w, "channel groups are %r, expected %r", got, w)


def check_layer(what, c, d, doc, rnd):
    with ok("children of %s" % what):
        kids = [k.iid for k in c]
        n = len(c)
    require(kids == d["children"], "%s has children %r, stored are %r", what, kids, d["children"])
    require(n == len(kids), "len() of %s is %d, it has %d children", what, n, len(kids))
    cls = {x["iid"]: x["cls"] for x in doc.channels}
    for k, child in zip(d["children"], c):
        require(type(child).__name__ == cls[k], "child %d of %s is a %s, expected %s", k, what,
                type(child).__name__, cls[k])
        with ok("%s[%d]" % (what, k)):
            require(c[k].iid == k, "%s[%d] gives channel %r", what, k, c[k].iid)
    absent = next(x for x in itertools.count() if x not in d["children"])
    missing("%s[%d]" % (what, absent), lambda: c[absent])
    check_slices(what, c, lambda x: x.iid, d["children"], cuts(rnd, len(kids)))


def auto_event(d):
    return first(d["evs"], 234)


def check_points(what, c, d, rnd):
    ev = auto_event(d)
    n = d["points"]
    with ok("points of %s" % what):
        pts = list(c)
    require(len(pts) == n, "%s has %d points, stored are %d", what, len(pts), n)
    pos = 0.0
    want = []
    for k in range(n):
        pos += struct.unpack_from("<d", ev.data, 21 + 24 * k)[0]
        want.append(pos)
        with ok("position of point %d of %s" % (k, what)):
            got = pts[k].position
        require(got == pos or spec.close(got, pos, 1e-12), "point %d of %s is at %r, expected %r", k,
                what, got, pos)
        with ok("%s[%d]" % (what, k)):
            require(c[k].position == got, "%s[%d] is another point", what, k)
    missing("%s[%d]" % (what, n), lambda: c[n])
    if n:
        with ok("slice of %s" % what):
            require([p.position for p in c[1:]] == [p.position for p in pts[1:]],
                    "slices of %s differ from the list", what)


# -- time markers ------------------------------------------------------------------------
def check_markers(what, owner, markers):
    with ok("time markers of %s" % what):
        got = [m.position for m in owner.timemarkers]
    want = [spec.MarkerPos().dec(m[148].data) for m in markers]
    require(got == want, "%s has time markers at %r, stored are %r", what, got, want)


# -- patterns ----------------------------------------------------------------------------
def pattern_order(doc):
    """Positions of doc.patterns in order of first appearance in the file."""
    idx = index_of(doc)
    return sorted(range(len(doc.patterns)),
                  key=lambda k: min(idx[id(b[0])] for b in doc.patterns[k]["blocks"]))


def check_patterns(project, doc, rnd):
    with ok("project.patterns"):
        coll = project.patterns
        pats = list(coll)
    want = [p["iid"] for p in doc.patterns]
    with ok("pattern iids"):
        got = [p.iid for p in pats]
    require(got == want, "patterns have IDs %r, stored are %r", got, want)
    check_count("patterns", coll, len(want))
    names = [text(p["name"], doc) for p in doc.patterns]
    for i, (p, d) in enumerate(zip(pats, doc.patterns)):
        what = "patterns[%d] (iid %d)" % (i, d["iid"])
        check_owns(what, p.events, [e for b in d["blocks"] for e in b], doc, ["patterns", i])
        with ok("notes of %s" % what):
            n, c = len(list(p.notes)), len(list(p.controllers))
        require(n == len(d["notes"]), "%s has %d notes, stored are %d", what, n, len(d["notes"]))
        require(c == len(d["ctrls"]), "%s has %d controllers, stored are %d", what, c,
                len(d["ctrls"]))
        check_markers(what, p, d["markers"])
        with ok("patterns[%d]" % i):
            require(coll[i].iid == d["iid"], "patterns[%d] is pattern %r", i, coll[i].iid)
        if names[i] is not None:
            with ok("patterns[%r]" % names[i]):
                got = coll[names[i]].iid
            require(got == want[names.index(names[i])], "patterns[%r] is pattern %d", names[i], got)
    missing("patterns[%d]" % len(want), lambda: coll[len(want)])
    missing("patterns['no such name']", lambda: coll["no such \x01 name"])
    check_slices("patterns", coll, lambda p: p.iid, want, cuts(rnd, len(want)))
    with ok("patterns.current"):
        cur = coll.current
    sel = doc.meta.get(67)
    k = struct.unpack("<H", sel.data)[0] if sel else None
    if k in want:
        require(cur is not None and cur.iid == k, "the selected pattern is %r, stored is %d",
                cur and cur.iid, k)
    else:
        require(cur is None, "a pattern (%r) is selected, stored is %r", cur and cur.iid, k)


# -- arrangements --------------------------------------------------------------------------
def check_arrangements(project, doc, rnd):
    with ok("project.arrangements"):
        coll = project.arrangements
    check_count("arrangements", coll, len(doc.arrangements))
    v = tuple(doc.version) + (0,) * (3 - len(doc.version))
    top = 500 if v >= (12, 9, 1) else 199
    require(coll.max_tracks == top, "max_tracks is %r, expected %d", coll.max_tracks, top)
    if not doc.arrangements:
        return
    with ok("arrangements"):
        arrs = list(coll)
    require(len(arrs) == len(doc.arrangements), "%d arrangements, stored are %d", len(arrs),
            len(doc.arrangements))
    names = [text(a["name"], doc) for a in doc.arrangements]
    for i, (a, d) in enumerate(zip(arrs, doc.arrangements)):
        what = "arrangements[%d]" % i
        require(a.name == names[i], "%s is named %r, stored is %r", what, a.name, names[i])
        check_owns(what, a.events, d["evs"], doc, ["arrangements", i])
        check_markers(what, a, d["markers"])
        with ok("%s" % what):
            require(coll[i].events.indexes == a.events.indexes, "%s by index is another one", what)
        if names[i] is not None:
            with ok("arrangements[%r]" % names[i]):
                got = coll[names[i]].events.indexes
            require(got == arrs[names.index(names[i])].events.indexes,
                    "arrangements[%r] is another one", names[i])
        with ok("tracks of %s" % what):
            tracks = list(a.tracks)
        require(len(tracks) == len(d["tracks"]), "%s has %d tracks, stored are %d", what, len(tracks),
                len(d["tracks"]))
        for t, (tr, td) in enumerate(zip(tracks, d["tracks"])):
            check_track("%s.tracks[%d]" % (what, t), tr, td, d, doc, rnd)
    missing("arrangements[%d]" % len(arrs), lambda: coll[len(arrs)])
    missing("arrangements['no such name']", lambda: coll["no such \x01 name"])
    ids = [sorted(a.events.indexes) for a in arrs]
    check_slices("arrangements", coll, lambda a: sorted(a.events.indexes), ids,
                 cuts(rnd, len(arrs)))
    cur = doc.meta.get(100)
    k = struct.unpack("<H", cur.data)[0] if cur else None
    if cur and k >= len(arrs):
        missing("arrangements.current, stored is number %d," % k, lambda: coll.current)
        return
    with ok("arrangements.current"):
        got = coll.current
    if cur is None:
        require(got is None, "an arrangement is current although none is stored")
    else:
        require(got is not None and sorted(got.events.indexes) == ids[k],
                "the current arrangement isn't number %d", k)


def check_track(what, tr, td, arr, doc, rnd):
    with ok("items of %s" % what):
        items = list(tr)
        n = len(tr)
    want = td["items"]
    require(n == len(items) == len(want), "%s has %d items (len %d), stored are %d", what,
            len(items), n, len(want))
    for k, (it, w) in enumerate(zip(items, want)):
        name = "%s[%d]" % (what, k)
        pos = struct.unpack_from("<I", arr["playlist"].data, w["off"])[0]
        require(it.position == pos, "%s is at %r, expected %d", name, it.position, pos)
        kind = "ChannelPLItem" if w["kind"] == "channel" else "PatternPLItem"
        require(type(it).__name__ == kind, "%s is a %s, expected %s", name, type(it).__name__, kind)
        with ok("what %s refers to" % name):
            iid = (it.channel if w["kind"] == "channel" else it.pattern).iid
        wiid = doc.channels[w["ref"]]["iid"] if w["kind"] == "channel" else \
            doc.patterns[w["ref"]]["iid"]
        require(iid == wiid, "%s refers to %s %d, stored is %d", name, w["kind"], iid, wiid)
        with ok(name):
            require(tr[k].position == pos, "%s is another item", name)
    with ok("slice of %s" % what):
        got = [i.position for i in tr[1:]]
    require(got == [i.position for i in items[1:]], "slices of %s differ from its items", what)


# -- mixer ---------------------------------------------------------------------------------
def insert_iids(n):
    return [-1 if 0 < i == n - 1 else i for i in range(n)]


def routes(doc, i):
    ins = doc.inserts[i]
    out = []
    if ins["routing"] is None:
        return out
    for d, on in enumerate(ins["routing"].data):
        off = doc.param_at.get((i, None, 64 + d))
        if on and 64 + d < 192 and off is not None:
            out.append(struct.unpack_from("<i", doc.params.data, off + 8)[0])
    return out


def check_mixer(project, doc, rnd):
    with ok("project.mixer"):
        mixer = project.mixer
        inserts = list(mixer)
    n = len(doc.inserts)
    require(len(inserts) == n, "%d inserts, stored are %d", len(inserts), n)
    check_count("mixer", mixer, n)
    iids = insert_iids(n)
    names = [text(i["name"], doc) for i in doc.inserts]
    for i, (ins, d) in enumerate(zip(inserts, doc.inserts)):
        what = "insert #%d" % i
        require(ins.iid == iids[i], "%s has iid %r, expected %d", what, ins.iid, iids[i])
        check_owns(what, ins.events, d["evs"], doc, ["mixer", i])
        with ok("routes of %s" % what):
            got = list(ins.routes)
        require(got == routes(doc, i), "routes of %s are %r, stored are %r", what, got,
                routes(doc, i))
        with ok("slots of %s" % what):
            slots = list(ins)
        require(len(slots) == len(d["slots"]), "%s has %d slots, stored are %d", what, len(slots),
                len(d["slots"]))
        require(len(ins) == len(slots), "len() of %s is %d", what, len(ins))
        snames = [text(s["name"], doc) for s in d["slots"]]
        for s, (sl, sd) in enumerate(zip(slots, d["slots"])):
            w = "%s slot %d" % (what, s)
            check_owns(w, sl.events, sd["evs"], doc, ["mixer", i, s])
            with ok(w):
                require(ins[s].events.indexes == sl.events.indexes, "%s by index is another", w)
            if snames[s] is not None:
                with ok("%s[%r]" % (what, snames[s])):
                    got = ins[snames[s]].events.indexes
                require(got == slots[snames.index(snames[s])].events.indexes,
                        "%s[%r] is another slot", what, snames[s])
        missing("%s[%d]" % (what, len(slots)), lambda: ins[len(slots)])
        missing("%s['no such name']" % what, lambda: ins["no such \x01 name"])
        check_slices(what, ins, lambda x: sorted(x.events.indexes),
                     [sorted(x.events.indexes) for x in slots], cuts(rnd, len(slots)))
        with ok("mixer[%d]" % iids[i]):
            got = mixer[iids[i]]
        require(got.events.indexes == ins.events.indexes, "mixer[%d] is insert %r", iids[i], got.iid)
        if names[i] is not None:
            with ok("mixer[%r]" % names[i]):
                got = mixer[names[i]].iid
            require(got == iids[names.index(names[i])], "mixer[%r] is insert %d", names[i], got)
    absent = next(x for x in itertools.count(rnd.int(0, 9)) if x not in iids)
    missing("mixer[%d]" % absent, lambda: mixer[absent])
    missing("mixer['no such name']", lambda: mixer["no such \x01 name"])
    check_slices("mixer", mixer, lambda i: i.iid, iids, cuts(rnd, n))


# -- plugins ---------------------------------------------------------------------------------
def check_plugin(what, owner, kind, data):
    with ok("plugin of %s" % what):
        p = owner.plugin
    if data is None:
        require(p is None, "%s has a plugin (%s) although no data is stored", what,
                type(p).__name__)
        return
    want = spec.PLUGIN_CLASS.get(kind, "_PluginBase")
    got = type(p).__name__
    if want == "_PluginBase":
        require(p is not None and got not in spec.PLUGIN_CLASS.values(),
                "%s with unsupported plugin data has plugin %s", what, got)
    else:
        require(got == want, "%s of %r has plugin class %s, expected %s", what, kind, got, want)


def check_plugins(project, doc):
    with ok("channels and slots"):
        chans = list(project.channels)
        inserts = list(project.mixer)
    for i, (c, d) in enumerate(zip(chans, doc.channels)):
        if d["cls"] == "Instrument":
            check_plugin("channels[%d]" % i, c, d["plug_kind"], d["plugin"])
    for i, (ins, d) in enumerate(zip(inserts, doc.inserts)):
        for s, (sl, sd) in enumerate(zip(ins, d["slots"])):
            check_plugin("insert #%d slot %d" % (i, s), sl, sd["plug_kind"], sd["plugin"])
