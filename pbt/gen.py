"""Structured generator of documents. Every choice comes from `src` (a Hypothesis draw)."""
import struct

from hypothesis import strategies as st

from . import ref, spec
from .doc import Between, Doc, Ev, Last, Rec, Slice, VstEv, Whole
from .spec import Bit, Bool, Color, Int, Rnd, Text


class Src:
    def __init__(self, draw):
        self._draw = draw

    def int(self, lo, hi):
        return lo if lo == hi else self._draw(st.integers(lo, hi))

    def chance(self, pct):
        """True with roughly pct percent; False is simplest."""
        return self._draw(st.integers(0, 99)) >= 100 - pct

    def seed(self):
        return self._draw(st.integers(0, 2 ** 32 - 1))

    def rnd(self):
        return Rnd(self.seed())

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def draw(self, strategy):
        return self._draw(strategy)

    def subset(self, seq, pct):
        """A random subset with one draw per 24 elements."""
        out = []
        seq = list(seq)
        for i in range(0, len(seq), 24):
            r = self.rnd()
            out += [x for x in seq[i:i + 24] if r.chance(pct / 100)]
        return out


VERSIONS = ["20.8.4.2576", "21.0.3.3517", "24.1.1.4234", "12.9.1", "12.9.0", "12.9.2", "11.5.0",
            "12.9.0.2748", "12.9.1.2749", "11.4.9.9", "11.5.0.1",
            "11.5", "11.4.9", "11.1.1", "11.10.2", "11.0.0.1", "10.0.9", "9.1.0", "5.0.2", "4.0.0",
            "3.5.4", "3.4.0", "3.3.9", "1.4.2", "20.0.0.1", "12.0.0", "12", "20.8.3"]


class Opt:
    """What kind of document to make."""

    def __init__(self, channels=3, patterns=3, arrangements=2, inserts=3, meta=True, plugins=True,
                 versions=None, minimum=0, want=(), unknown=True, density=60, formats=False,
                 force=None, types=None):
        self.channels, self.patterns = channels, patterns
        self.arrangements, self.inserts = arrangements, inserts
        self.meta, self.plugins, self.versions = meta, plugins, versions or VERSIONS
        self.minimum, self.want, self.unknown = minimum, set(want), unknown
        self.density, self.formats = density, formats
        self.force = force              # kind of every plugin where it suits
        self.types = types              # channel types

    def count(self, src, what, n):
        lo = 1 if what in self.want else 0
        return src.int(min(lo, n), n)


def _struct(src, id, layout, tail=True):
    """A payload of a known struct: complete, cut at a field boundary, or with a tail."""
    rnd = src.rnd()
    data = layout.payload(rnd)
    m = src.int(0, 9)
    if m == 7:
        if rnd.chance(0.5):
            data = data[:rnd.int(0, layout.size - 1)]
        else:
            data = data[:rnd.pick(layout.bounds[1:-1] or [layout.size])]
    elif m >= 8 and tail:
        data += rnd.bytes(rnd.int(1, 9))
    return Ev(id, data)


def _fixed(rnd, id):
    k = ref.kind(id)
    if k == "bool":
        return Ev(id, bytes([rnd.int(0, 1)]))
    if k == "f32":
        return Ev(id, spec.F32().gen(rnd))
    n = ref.width(id)
    return Ev(id, rnd.int(0, (1 << 8 * n) - 1).to_bytes(n, "little"))


def unknown_event(rnd):
    if rnd.chance(0.5):
        return _fixed(rnd, rnd.pick(ref.UNKNOWN_FIXED))
    return Ev(rnd.pick(ref.UNKNOWN_DATA), rnd.bytes(rnd.pick((0, 1, 3, 16, 127, 128, 200))))


# -- plugins -------------------------------------------------------------------------
def notebook_bytes(u1, active, pages, editable):
    return u1 + struct.pack("<I", active) + pages + struct.pack("<i", -1) + bytes([editable])


def vst_event(rnd):
    recs = []

    def has(p):
        return rnd.zero or rnd.chance(p)

    if has(0.9):
        d = rnd.bytes(rnd.pick((12, 12, 12, 8, 4, 0, 24)))
        recs.append([1, d])
    if has(0.9):
        d = bytearray(rnd.bytes(rnd.pick((23, 23, 23, 22, 17, 13, 9, 30))))
        if len(d) > 22:
            d[22] &= 1
        recs.append([2, bytes(d)])
    for rid in (30, 31, 32, 50, 57):
        if has(0.4):
            recs.append([rid, rnd.bytes(rnd.int(0, 30))])
    for rid in spec.VST_TEXT.values():
        if has(0.8):
            recs.append([rid, spec.rand_text(rnd, True).encode("utf8")])
    for rid in spec.VST_BLOB.values():
        if has(0.8):
            recs.append([rid, rnd.bytes(rnd.pick((0, 16, 40, 150)))])
    if has(0.2):
        recs.append([rnd.pick((3, 29, 60, 1000)), rnd.bytes(rnd.int(0, 10))])
    if not rnd.zero and rnd.chance(0.5):
        rnd.r.shuffle(recs)
    if recs and not rnd.zero and rnd.chance(0.2):     # a record stored twice: the first one counts
        rid, d = rnd.pick(recs)
        if rid in spec.VST_TEXT.values():
            d = spec.rand_text(rnd, True).encode("utf8")
        elif rid != 2 and (rid != 1 or len(d) >= 12):
            d = rnd.bytes(len(d))
        if rid not in (1, 2) or len(d) >= (12 if rid == 1 else 23):
            recs.insert(rnd.int(0, len(recs)), [rid, d])
    return VstEv(struct.pack("<I", rnd.pick((8, 10))), recs,
                 rnd.bytes(rnd.int(1, 11)) if rnd.chance(0.1) else b"")


# Not quite the names of plugins whose data is interpreted.
NEAR = ["boobass", "BooBass ", " BooBass", "BooBass 2", "Boo", "Fruit kick", "Fruity Wrapper 2",
        "fruity wrapper", "Fruity", "Fruity Balance\n", "Fruity Notebook 2", "Plucked", "plucked!",
        "Soundgoodizer!", "Fruity Stereo", "FruitySend"]


def plugin_kinds(channel):
    return ["", "Fruity Wrapper"] + [n for n, (c, _, _) in spec.PLUGINS.items() if c == channel] \
        + ([] if channel else ["Fruity NoteBook 2"]) + ["*"]


def make_plugin(src, doc, channel, path, tag="plugin", force=None, unnamed=True):
    """-> events (201.. 213) of one plugin and its fields below `path`."""
    kind = force if force in plugin_kinds(channel) else src.pick(plugin_kinds(channel))
    rnd = src.rnd()
    evs = []
    if kind == "":
        return evs, None, kind
    name = kind
    if kind == "*":
        name = rnd.pick(("Some Plugin %d" % rnd.int(0, 99), rnd.pick(NEAR), "Other", ""))
        if not unnamed:
            name = name or "Other"
    evs.append(Ev(201, ref.text_encode(name, doc.uni)))
    wrapper = _struct(src, 212, spec.L_WRAPPER) if rnd.zero or rnd.chance(0.85) else None
    ppath = path + ["plugin"]
    if kind == "*":
        data = Ev(213, rnd.bytes(rnd.pick((0, 4, 40, 130))))
    elif kind == "Fruity Wrapper":
        data = vst_event(rnd)
    elif kind == "Fruity NoteBook 2":
        pages = spec.Pages().gen(rnd)
        active, editable = rnd.int(0, 2 ** 32 - 1), rnd.int(0, 1)
        data = Ev(213, notebook_bytes(rnd.bytes(4), active, pages, editable))
    else:
        _, prefixed, layout = spec.PLUGINS[kind]
        body, off = layout.payload(rnd), 0
        if prefixed and rnd.chance(0.5):
            body, off = rnd.bytes(4) + body, 4
        elif rnd.chance(0.2):
            body += rnd.bytes(rnd.pick((1, 2, 3, 5, 9)))
        data = Ev(213, body)
        for attr, (o, codec) in layout.fields.items():
            doc.add(ppath, attr, Slice(data, o + off, codec), tag)
    if kind == "Fruity NoteBook 2":
        doc.add(ppath, "active_page", Slice(data, 4, Int("I")), tag)
        doc.add(ppath, "pages", Between(data, 8, 5, spec.Pages()), tag)
        doc.add(ppath, "editable", Last(data, Bool()), tag)
    if kind == "Fruity Wrapper":
        for sub, attr, which, bit, inv in spec.VST_FLAGS:
            doc.add(ppath + [sub], attr, Rec(data, 2, 9 + 4 * which, Bit(bit, 4, inv)), tag,
                    raises=data.rec(2) is None)
        doc.add(ppath + ["compatibility"], "fast_idle", Rec(data, 2, 22, Bool()), tag,
                raises=data.rec(2) is None)
        for attr, off, fmt in (("input", 0, "i"), ("output", 4, "i"), ("pb_range", 8, "I")):
            doc.add(ppath + ["midi"], attr, Rec(data, 1, off, Int(fmt)), tag,
                    raises=data.rec(1) is None)
        for attr, rid in spec.VST_TEXT.items():
            doc.add(ppath, attr, Rec(data, rid, None, spec.Utf8()), tag, raises=True)
        for attr, rid in spec.VST_BLOB.items():
            doc.add(ppath, attr, Rec(data, rid, None, spec.Blob()), tag, raises=True)
    if wrapper is not None:
        evs.append(wrapper)
    for attr, bit in spec.WRAPPER_BITS.items():
        doc.add(ppath, attr, Slice(wrapper, 16, Bit(bit, 4)), tag)
    for attr in ("page", "width", "height"):
        doc.add(ppath, attr, Slice(wrapper, *spec.L_WRAPPER.fields[attr]), tag)
    evs.append(data)
    return evs, data, kind


# -- channels --------------------------------------------------------------------------
CH_CLASS = {0: "Sampler", 2: "Instrument", 3: "Layer", 4: "Instrument", 5: "Automation"}
CH_FIXED = [0, 32, 20, 22, 15, 69, 70, 71, 74, 75, 76, 83, 85, 86, 89, 97, 131, 132, 135, 138, 139,
            140, 142, 143, 144, 153]


def make_automation(rnd):
    n = rnd.int(0, 6) if not rnd.chance(0.05) else 40
    pts = b"".join(repeating(rnd, n, lambda: spec.L_AUTOPOINT.payload(rnd)))
    return Ev(234, rnd.bytes(4) + struct.pack("<i", rnd.int(-2 ** 31, 2 ** 31 - 1)) + rnd.bytes(9)
              + struct.pack("<I", n) + pts + rnd.bytes(rnd.pick((0, 0, 5, 30)))), n


def channel_fields(doc, i, evs, cls, auto_points, tag="channel"):
    p = ["channels", i]
    first, nth = {}, {}
    for e in evs:
        first.setdefault(e.id, e)
        nth.setdefault(e.id, []).append(e)
    g = first.get

    def whole(path, attr, id, codec, **k):
        return doc.add(p + path, attr, Whole(g(id), codec), tag, **k)

    def at(path, attr, ev, layout, key=None):
        off, codec = layout.fields[key or attr]
        return doc.add(p + path, attr, Slice(ev, off, codec), tag)

    def bit(path, attr, ev, off, size, n):
        return doc.add(p + path, attr, Slice(ev, off, Bit(n, size)), tag)

    T = Text(doc.uni)
    whole([], "color", 128, Color())
    whole([], "enabled", 0, Bool())
    whole([], "icon", 155, Int("I"))
    whole([], "locked", 32, Bool())
    whole([], "name", 203 if g(203) else 192, T)
    whole([], "zipped", 15, Bool(), default=False, writable=False)
    whole([], "iid", 64, Int("H")).structural = True
    whole([], "internal_name", 201, T).structural = True
    lev = g(219)
    par = g(215)
    for attr, off, wid, bid in (("pan", 0, 73, 3), ("volume", 4, 72, 2)):
        if lev is not None:
            at([], attr, lev, spec.L_LEVELS)
        elif g(wid):
            whole([], attr, wid, Int("H"), writable=not g(bid))
        else:
            whole([], attr, bid, Int("B"))
    whole(["keyboard"], "fine_tune", 142, Int("i"))
    whole(["keyboard"], "root_note", 135, Int("I"), default=60)
    for a in ("main_pitch", "add_root", "key_region"):
        at(["keyboard"], a, par, spec.L_PARAMS)
    if cls == "Layer":
        bit([], "random", g(144), 0, 4, 0)
        bit([], "crossfade", g(144), 0, 4, 1)
    if cls == "Automation":
        au = g(234)
        doc.add(p + ["lfo"], "amount", Slice(au, 4, Int("i")), tag)
        for k in range(auto_points):
            for a in ("value", "tension"):
                off, codec = spec.L_AUTOPOINT.fields[a]
                doc.add(p + [k], a, Slice(au, 21 + 24 * k + off, codec), tag)
    if cls in ("Sampler", "Instrument"):
        at([], "pitch_shift", lev, spec.L_LEVELS)
        for a in ("chord", "direction", "gate", "range", "repeat", "slide", "time"):
            at(["arp"], a, par, spec.L_PARAMS, "arp." + a)
        whole([], "cut_group", 132, spec.Pair("H"))
        whole([], "insert", 22, Int("b"))
        for a in ("feedback", "pan", "pitch_shift", "echoes", "time"):
            at(["delay"], a, g(209), spec.L_DELAY)
        bit(["delay"], "ping_pong", par, 10, 1, 1)
        bit(["delay"], "fat_mode", par, 10, 1, 2)
        doc.add(p + ["delay"], "mod_x", Slice(g(138), 0, Int("H")), tag)
        doc.add(p + ["delay"], "mod_y", Slice(g(138), 2, Int("H")), tag)
        for a in ("mod_x", "mod_y", "pan", "volume"):
            at(["level_adjusts"], a, g(229), spec.L_ADJ)
        for a in ("max", "slide"):
            at(["polyphony"], a, g(221), spec.L_POLY)
        bit(["polyphony"], "mono", g(221), 8, 1, 0)
        bit(["polyphony"], "porta", g(221), 8, 1, 1)
        whole(["time"], "swing", 97, Int("H"))
        whole(["time"], "shift", 89, Int("H"))
        at(["time"], "gate", par, spec.L_PARAMS)
        at(["time"], "full_porta", par, spec.L_PARAMS)
        for name, ev in zip(("volume", "keyboard"), nth.get(228, [])):
            for a in spec.L_TRACKING.fields:
                at(["tracking", ("k", name)], a, ev, spec.L_TRACKING)
    if cls == "Sampler":
        whole([], "au_sample_rate", 153, Int("I"))
        at(["content"], "declick_mode", par, spec.L_PARAMS)
        for a, n in (("resample", 0), ("load_regions", 1), ("load_slices", 2), ("keep_on_disk", 8)):
            bit(["content"], a, g(143), 0, 4, n)
        bit(["playback"], "use_loop_points", g(143), 0, 4, 3)
        whole(["playback"], "ping_pong_loop", 20, Bool())
        at(["playback"], "start_offset", par, spec.L_PARAMS)
        for a in ("mod_x", "mod_y", "type"):
            at(["filter"], a, lev, spec.L_LEVELS)
        for a, id in (("boost", 74), ("cutoff", 71), ("fade_in", 76), ("fade_out", 75),
                      ("freq_tilt", 69), ("pogo", 86), ("resonance", 83), ("stereo_delay", 85)):
            whole(["fx"], a, id, Int("H"))
        whole(["fx"], "ringmod", 131, spec.Pair("H"))
        for a in ("crossfade", "fix_trim", "inverted", "length", "normalize", "remove_dc", "start",
                  "trim"):
            at(["fx"], a, par, spec.L_PARAMS)
        for a, n in (("fade_stereo", 0), ("reverse", 1), ("clip", 2), ("swap_stereo", 8)):
            bit(["fx"], a, g(70), 0, 2, n)
        whole(["fx", "reverb"], "type", 139, spec.ReverbType())
        whole(["fx", "reverb"], "mix", 139, spec.ReverbMix())
        for a in ("time", "pitch", "multiplier", "mode"):
            at(["stretching"], a, par, spec.L_PARAMS, "stretch." + a)
        whole([], "sample_path", 196, spec.PathText(doc.uni))
        for name, ev in zip(("Panning", "Volume", "Mod X", "Mod Y", "Pitch"), nth.get(218, [])):
            e, l = ["envelopes", ("k", name)], ["lfos", ("k", name)]
            for a in ("enabled", "predelay", "attack", "hold", "decay", "sustain", "release",
                      "amount", "attack_tension", "decay_tension", "release_tension"):
                at(e, a, ev, spec.L_ENV)
            for a in ("predelay", "attack", "amount", "speed", "shape"):
                at(l, a, ev, spec.L_ENV, "lfo." + a)
            bit(e, "synced", ev, 0, 4, 0)
            bit(l, "synced", ev, 0, 4, 1)
            bit(l, "retrig", ev, 0, 4, 5)


def make_channel(src, doc, opt, i, iid, ngroups):
    typ = src.pick(opt.types or ((2, 2, 4) if opt.force else (0, 4, 0, 2, 3, 5, 0, 1, 9)))
    cls = CH_CLASS.get(typ, "Channel")
    rnd = src.rnd()
    gnum = rnd.int(0, ngroups - 1)
    head = Ev(64, struct.pack("<H", iid))
    evs = [Ev(21, bytes([typ])), Ev(145, struct.pack("<i", gnum))]
    dense = opt.density
    for id in src.subset(CH_FIXED, dense):
        if id == 139:
            evs.append(Ev(139, spec.ReverbType().gen(rnd)))
        else:
            evs.append(_fixed(rnd, id))
    lv = src.int(0, 4)
    if lv <= 2:
        evs.append(_struct(src, 219, spec.L_LEVELS))
    elif lv == 3:
        for pair in ((2, 72), (3, 73)):
            ids = pair if rnd.chance(0.25) else (rnd.pick(pair),)
            evs += [_fixed(rnd, id) for id in ids]
    if lv == 2:                  # what older versions read, next to what newer ones do
        evs += [_fixed(rnd, id) for id in (2, 72, 3, 73) if rnd.chance(0.5)]
    if src.chance(dense + 10):
        evs.append(_struct(src, 215, spec.L_PARAMS))
    for id, layout, most in ((209, spec.L_DELAY, 1), (229, spec.L_ADJ, 1), (221, spec.L_POLY, 1)):
        if src.chance(dense):
            evs.append(_struct(src, id, layout))
    for id, layout, counts in ((218, spec.L_ENV, (0, 5, 5, 2, 1)), (228, spec.L_TRACKING, (0, 2, 1))):
        for _ in range(src.pick(counts)):
            evs.append(_struct(src, id, layout))
    npoints = 0
    if cls == "Automation" and src.chance(85):
        au, npoints = make_automation(rnd)
        evs.append(au)
    text = Text(doc.uni)
    if rnd.chance(0.6):
        evs.append(Ev(203, text.gen(rnd)))
    if rnd.chance(0.25):
        evs.append(Ev(192, text.gen(rnd)))
    if rnd.chance(0.6):
        evs.append(_fixed(rnd, 128))
    if rnd.chance(0.5):
        evs.append(_fixed(rnd, 155))
    if rnd.chance(0.5):
        evs.append(Ev(196, spec.PathText(doc.uni).gen(rnd)))
    plug, data = [], None
    internal = None
    if cls == "Instrument" and opt.plugins:
        plug, data, kind = make_plugin(src, doc, True, ["channels", i], force=opt.force,
                                       unnamed=not any(e.id == 196 for e in evs))
    if cls != "Instrument" and not rnd.zero and rnd.chance(0.15):   # left over, not interpreted
        plug = [Ev(201, ref.text_encode("Left Over", doc.uni)), Ev(213, rnd.bytes(rnd.int(0, 30)))]
    if not plug and rnd.chance(0.6):
        internal = rnd.pick(("", "", "Some Plugin", "Sampler"))
        plug = [Ev(201, ref.text_encode(internal, doc.uni))]
    elif not plug and rnd.chance(0.3):
        plug = [_struct(src, 212, spec.L_WRAPPER)]
    if src.chance(40) and not rnd.zero:
        rnd.r.shuffle(evs)
    if opt.unknown:
        for _ in range(src.pick((0, 0, 1, 3))):
            evs.insert(rnd.int(0, len(evs)), unknown_event(rnd))
    cut = rnd.int(0, len(evs))
    evs = [head] + evs[:cut] + plug + evs[cut:]
    ids = {e.id for e in evs}
    if cls == "Instrument" and 196 in ids and internal == "":
        cls = "Sampler"
    ch = {"iid": iid, "type": typ, "cls": cls, "group": gnum, "evs": evs, "children": [],
          "plugin": data, "plug_kind": None if data is None else kind, "points": npoints}
    return ch


def finish_channel(src, doc, i, ch, iids):
    if ch["cls"] == "Layer" and src.chance(70):
        rnd = src.rnd()
        kids = [rnd.pick(iids) for _ in range(rnd.int(1, 4))]
        ch["children"] = kids
        for k in kids:
            ch["evs"].append(Ev(94, struct.pack("<H", k)))
    channel_fields(doc, i, ch["evs"], ch["cls"], ch["points"])


# -- time markers -----------------------------------------------------------------------
def make_markers(src, doc, path, tag):
    n = src.pick((0, 0, 1, 2, 3))
    out, evs = [], []
    if not n:
        return out, evs
    rnd = src.rnd()
    ids = [148] + [i for i in (33, 34, 205) if rnd.zero or rnd.chance(0.8)]
    for k in range(n):
        pos = rnd.pick((rnd.int(0, 2 ** 27 - 1), rnd.int(0, 2 ** 27 - 1), 0, 1, 2 ** 27 - 1)) + \
            (spec.MarkerType.SIG if rnd.chance(0.5) else 0)
        m = {148: Ev(148, struct.pack("<I", pos))}
        for id in ids[1:]:
            m[id] = Ev(205, Text(doc.uni).gen(rnd)) if id == 205 else _fixed(rnd, id)
        out.append(m)
        evs += [m[i] for i in ids]
        mp = path + ["timemarkers", k]
        doc.add(mp, "position", Whole(m[148], spec.MarkerPos()), tag, writable=False)
        doc.add(mp, "type", Whole(m[148], spec.MarkerType()), tag, writable=False)
        doc.add(mp, "numerator", Whole(m.get(33), Int("B")), tag)
        doc.add(mp, "denominator", Whole(m.get(34), Int("B")), tag)
        doc.add(mp, "name", Whole(m.get(205), Text(doc.uni)), tag)
    return out, evs


# -- patterns -----------------------------------------------------------------------------
def records(src, rnd, layout, choices):
    return repeating(rnd, src.pick(choices), lambda: layout.payload(rnd))


def repeating(rnd, n, make):
    """n records; some are copies of the one before."""
    out = []
    for _ in range(n):
        out.append(out[-1] if out and rnd.chance(0.15) else make())
    return out


def make_pattern(src, doc, opt, i, iid):
    rnd = src.rnd()
    new = lambda: Ev(65, struct.pack("<H", iid))  # noqa: E731
    a, b = [new()], []
    p = ["patterns", i]
    tag = "pattern"
    nev = cev = None
    notes = ctrls = []
    if src.chance(75):
        notes = records(src, rnd, spec.L_NOTE, (1, 0, 2, 3, 8))
        tail = rnd.bytes(rnd.pick((0, 0, 0, 0, 5)))
        nev = Ev(224, b"".join(notes) + tail)
        a.append(nev)
        for k in range(len(notes)):
            for attr, (off, codec) in spec.L_NOTE.fields.items():
                doc.add(p + ["notes", k], attr, Slice(nev, 24 * k + off, codec), tag)
            doc.add(p + ["notes", k], "slide", Slice(nev, 24 * k + 4, Bit(3, 2)), tag)
    if src.chance(60):
        ctrls = records(src, rnd, spec.L_CTRL, (1, 0, 2, 5))
        cev = Ev(223, b"".join(ctrls) + rnd.bytes(rnd.pick((0, 0, 0, 7))))
        a.append(cev)
        for k in range(len(ctrls)):
            for attr, (off, codec) in spec.L_CTRL.fields.items():
                doc.add(p + ["controllers", k], attr, Slice(cev, 12 * k + off, codec), tag)
    name = color = length = looped = None
    if rnd.chance(0.7):
        name = Ev(193, Text(doc.uni).gen(rnd))
        b.append(name)
    if rnd.chance(0.6):
        color = _fixed(rnd, 150)
        b.append(color)
    if rnd.chance(0.6):
        looped = _fixed(rnd, 26)
        b.append(looped)
    for id in (160, 161, 162):
        if rnd.chance(0.3):
            b.append(_fixed(rnd, id))
    if rnd.chance(0.6):
        length = _fixed(rnd, 164)
        b.append(length)
    markers, mevs = make_markers(src, doc, p, tag)
    b += mevs
    doc.add(p, "name", Whole(name, Text(doc.uni)), tag)
    doc.add(p, "color", Whole(color, Color()), tag)
    doc.add(p, "length", Whole(length, Int("I")), tag)
    doc.add(p, "looped", Whole(looped, Bool()), tag, default=False)
    blocks = [a]
    if b:
        blocks.append([new()] + b)
    if len(b) > 2 and rnd.chance(0.3) and not mevs:
        k = rnd.int(1, len(b) - 1)
        blocks[1:] = [[new()] + b[:k], [new()] + b[k:]]
    if rnd.chance(0.2) and len(blocks) > 1:
        blocks = blocks[::-1]
    if len(blocks) == 2 and rnd.chance(0.2):
        blocks = [blocks[0] + blocks[1][1:]]
    doc.add(p, "iid", Whole(blocks[0][0], Int("H")), tag).structural = True
    if opt.unknown and src.chance(25):
        bl = rnd.pick(blocks)
        bl.insert(rnd.int(1, len(bl)), unknown_event(rnd))
    return {"iid": iid, "blocks": blocks, "notes": notes, "ctrls": ctrls, "markers": markers,
            "name": name, "notes_ev": nev, "ctrls_ev": cev}


# -- arrangements ---------------------------------------------------------------------------
def make_arrangement(src, doc, opt, i):
    rnd = src.rnd()
    p = ["arrangements", i]
    tag = "arrangement"
    head = Ev(99, struct.pack("<H", i if not rnd.chance(0.2) else rnd.int(0, 65535)))
    evs = [head]
    name = None
    if rnd.zero or rnd.chance(0.9):
        name = Ev(241, Text(doc.uni).gen(rnd))
        evs.append(name)
    evs.append(_fixed(rnd, 36))
    ntracks = src.pick((1, 0, 2, 3, 4, 6))
    parts = dict_of(doc.version)
    maxidx = 499 if parts >= (12, 9, 1) else 198
    items = []
    refs = [("channel", k) for k in range(len(doc.channels))] + \
           [("pattern", k) for k in range(len(doc.patterns))]
    pl = None
    if src.chance(85):
        new = src.chance(50)
        n = src.pick((1, 0, 2, 3, 6, 15, 8, 30)) if ntracks and refs else 0
        size = 60 if new else 32
        buf = b""
        for k in range(n):
            if k and rnd.chance(0.1):
                buf += buf[-size:]
                items.append(dict(items[-1], off=k * size))
                continue
            kind, which = rnd.pick(refs)
            t = rnd.int(0, ntracks - 1)
            idx = doc.channels[which]["iid"] if kind == "channel" else \
                20480 + doc.patterns[which]["iid"]
            r = bytearray(rnd.bytes(size))
            r[0:16] = struct.pack("<IHHIHH", rnd.int(0, 2 ** 32 - 1), 20480, idx,
                                  rnd.int(0, 2 ** 32 - 1), maxidx - t, rnd.int(0, 65535))
            r[24:32] = spec.F32Pair().gen(rnd)
            buf += bytes(r)
            items.append({"track": t, "kind": kind, "ref": which, "off": k * size})
        pl = Ev(233, buf)
        evs.append(pl)
    markers, mevs = make_markers(src, doc, p, tag)
    evs += mevs
    tracks = []
    for t in range(ntracks):
        tev = _struct(src, 238, spec.L_TRACK)
        evs.append(tev)
        nev = None
        if rnd.chance(0.4):
            nev = Ev(239, Text(doc.uni).gen(rnd))
            evs.append(nev)
        tp = p + ["tracks", t]
        for attr in ("color", "content_locked", "enabled", "grouped", "height", "icon", "iid",
                     "locked", "motion", "position_sync", "press", "tolerant", "trigger_sync",
                     "queued"):
            doc.add(tp, attr, Slice(tev, *spec.L_TRACK.fields[attr]), tag)
        doc.add(tp, "name", Whole(nev, Text(doc.uni)), tag)
        mine = [it for it in items if it["track"] == t]
        tracks.append({"items": mine, "ev": tev})
        for k, it in enumerate(mine):
            ip = tp + [k]
            doc.add(ip, "position", Slice(pl, it["off"], Int("I")), tag)
            doc.add(ip, "length", Slice(pl, it["off"] + 8, Int("I")), tag)
            doc.add(ip, "group", Slice(pl, it["off"] + 14, Int("H")), tag)
            doc.add(ip, "offsets", Slice(pl, it["off"] + 24, spec.F32Pair()), tag)
    doc.add(p, "iid", Whole(head, Int("H")), tag)
    doc.add(p, "name", Whole(name, Text(doc.uni)), tag)
    if opt.unknown and src.chance(30):
        evs.insert(rnd.int(1, len(evs)), unknown_event(rnd))
    return {"evs": evs, "tracks": tracks, "items": items, "markers": markers, "playlist": pl,
            "name": name, "head": head}


def dict_of(version):
    return tuple(version) + (0,) * (3 - len(version))


# -- mixer ------------------------------------------------------------------------------------
def make_insert(src, doc, opt, i, total):
    rnd = src.rnd()
    p = ["mixer", i]
    tag = "mixer"
    first = {}
    pre, post, slots = [], [], []
    for id in (149, 95):
        if rnd.chance(0.5):
            pre.append(_fixed(rnd, id))
    if rnd.chance(0.5):
        pre.append(Ev(204, Text(doc.uni).gen(rnd)))
    flags = _struct(src, 236, spec.L_INSFLAGS)
    body = pre + [flags]
    for s in range(src.pick((1, 2) if opt.force else (1, 0, 2, 3, 10) if opt.plugins else
                            (0, 1, 2, 10))):
        sev = [Ev(98, struct.pack("<H", s))]
        sp = p + [s]
        opt_evs = []
        for id in (128, 155):
            if rnd.chance(0.5):
                opt_evs.append(_fixed(rnd, id))
        if rnd.chance(0.4):
            opt_evs.append(Ev(203, Text(doc.uni).gen(rnd)))
        plug, data, kind = [], None, ""
        if opt.plugins and s < 3:
            plug, data, kind = make_plugin(src, doc, False, sp, force=opt.force)
        if not plug and rnd.chance(0.3):
            plug = [Ev(201, ref.text_encode("", doc.uni))]
        cut = rnd.int(0, len(opt_evs))
        sevs = sev + opt_evs[:cut] + plug + opt_evs[cut:]
        body += sevs
        by = {e.id: e for e in reversed(sevs)}
        doc.add(sp, "color", Whole(by.get(128), Color()), tag)
        doc.add(sp, "icon", Whole(by.get(155), Int("I")), tag)
        doc.add(sp, "name", Whole(by.get(203), Text(doc.uni)), tag)
        doc.add(sp, "index", Whole(sev[0], Int("H")), tag)
        doc.add(sp, "iid", Whole(sev[0], Int("H")), tag)
        doc.add(sp, "internal_name", Whole(by.get(201), Text(doc.uni)), tag).structural = True
        slots.append({"evs": sevs, "plugin": data, "plug_kind": kind, "name": by.get(203)})
    routing = None
    if rnd.zero or rnd.chance(0.9):
        routing = Ev(235, bytes(rnd.int(0, 1) for _ in range(rnd.pick((total, 0, 4, 127, 127, 160)))))
        body.append(routing)
    if rnd.zero or rnd.chance(0.9):
        body.append(_fixed(rnd, 154))
    body.append(_fixed(rnd, 147))
    by = {e.id: e for e in reversed(body) if e.id in (95, 147, 149, 154, 204)}
    doc.add(p, "color", Whole(by.get(149), Color()), tag)
    doc.add(p, "icon", Whole(by.get(95), Int("h")), tag)
    doc.add(p, "name", Whole(by.get(204), Text(doc.uni)), tag)
    doc.add(p, "input", Whole(by.get(154), Int("i")), tag)
    doc.add(p, "output", Whole(by.get(147), Int("i")), tag)
    for attr, (bit, inv) in spec.INSERT_BITS.items():
        doc.add(p, attr, Slice(flags, 4, Bit(bit, 4, inv)), tag)
    doc.add(p, "dock", Slice(flags, 4, spec.Dock()), tag, writable=False)
    if opt.unknown and src.chance(30):
        body.insert(rnd.int(0, len(body)), unknown_event(rnd))
    return {"evs": body, "slots": slots, "routing": routing, "name": by.get(204), "flags": flags}


OWN_PARAMS = {"volume": 192, "pan": 193, "stereo_separation": 194}
EQ = {"low": (208, 216, 224), "mid": (209, 217, 225), "high": (210, 218, 226)}


def make_params(src, doc, total):
    rnd = src.rnd()
    if not (rnd.zero or rnd.chance(0.92)):
        recs = None
    else:
        recs = []
        for i in range(total):
            own = list(OWN_PARAMS.values()) + [x for t in EQ.values() for x in t]
            for id in own:
                if rnd.zero or rnd.chance(0.8):
                    recs.append((i, 0, id))
            for d in range(min(total, 5)):
                if rnd.chance(0.6):
                    recs.append((i, 0, 64 + d))
            if rnd.chance(0.3):
                recs.append((i, 0, 191))
            for s in range(len(doc.inserts[i]["slots"])):
                for id in (0, 1):
                    if rnd.zero or rnd.chance(0.8):
                        recs.append((i, s, id))
            if rnd.chance(0.2):
                recs.append((i, 0, 255))
        if rnd.chance(0.3):
            recs.append((total + 3, 0, 192))
        if not rnd.zero and rnd.chance(0.4):
            rnd.r.shuffle(recs)
    at = {}
    if recs is not None:
        buf = b""
        for i, s, id in recs:
            at[i, s if id in (0, 1) else None, id] = len(buf)
            msg = rnd.int(0, 1) if id == 0 else rnd.int(-2 ** 31, 2 ** 31 - 1)
            buf += rnd.bytes(4) + struct.pack("<BBHi", id, rnd.int(0, 255),
                                              1 << 13 | i << 6 | s, msg)
        doc.params = Ev(225, buf)
    doc.param_at = at
    tag = "mixer"

    def add(path, attr, key, codec=Int("i")):
        off = at.get(key)
        doc.add(path, attr, Slice(doc.params if off is not None else None, (off or 0) + 8, codec),
                tag)

    for i, ins in enumerate(doc.inserts):
        p = ["mixer", i]
        for attr, id in OWN_PARAMS.items():
            add(p, attr, (i, None, id))
        for band, (gain, freq, q) in EQ.items():
            for attr, id in (("gain", gain), ("freq", freq), ("reso", q)):
                add(p + ["eq", band], attr, (i, None, id))
        for s in range(len(ins["slots"])):
            add(p + [s], "enabled", (i, s, 0), Bool(4))
            add(p + [s], "mix", (i, s, 1))


# -- project -------------------------------------------------------------------------------------
def make_meta(src, doc, opt):
    rnd = src.rnd()
    out = []
    uni = doc.uni
    for id in (9, 10, 11, 12, 13, 17, 18, 23, 28, 30, 67, 80, 133, 146, 152):
        if rnd.zero or rnd.chance(0.7):
            out.append(_fixed(rnd, id))
    t = src.pick((0, 0, 1, 2, 3, 4, 5))
    if t in (0, 4):
        out.append(Ev(156, struct.pack("<I", rnd.int(10000, 522000))))
    if t in (1, 2, 4):
        out.append(Ev(66, struct.pack("<H", rnd.int(10, 521))))
    if t in (1, 4, 5):
        out.append(Ev(93, struct.pack("<H", rnd.int(0, 999))))
    for id in (194, 195, 197, 198, 206, 207):
        if rnd.zero or rnd.chance(0.75):
            out.append(Ev(id, Text(uni).gen(rnd)))
    if rnd.zero or rnd.chance(0.75):
        out.append(Ev(202, spec.PathText(uni).gen(rnd)))
    if rnd.zero or rnd.chance(0.75):
        out.append(Ev(200, spec.Licensee(uni).gen(rnd)))
    if rnd.chance(0.6):
        out.append(_struct(src, 217, spec.L_PLSEL))
    if rnd.zero or rnd.chance(0.7):
        stamp = struct.pack("<dd", rnd.pick((0.0, 44562.625, 44562.0, 1.5, 36526.123)),
                            rnd.pick((0.0, 0.5, 12.25, 1.0 / 86400, 400.75)))
        stamp += rnd.bytes(rnd.pick((0, 0, 8)))
        out.append(Ev(237, stamp if rnd.zero or rnd.chance(0.9) else stamp[:rnd.int(0, 15)]))
    if not rnd.zero and rnd.chance(0.6):
        rnd.r.shuffle(out)
    return out


def project_fields(doc):
    g = doc.meta.get
    tag = "project"
    T = Text(doc.uni)

    def whole(attr, id, codec, path=(), tag=tag, **k):
        return doc.add(list(path), attr, Whole(g(id), codec), tag, **k)

    whole("title", 194, T)
    whole("comments", 195 if g(195) else 198, T)
    whole("url", 197, T)
    whole("genre", 206, T)
    whole("artists", 207, T)
    whole("data_path", 202, spec.PathText(doc.uni, True))
    whole("licensee", 200, spec.Licensee(doc.uni))
    whole("licensed", 28, Bool())
    whole("looped", 9, Bool())
    whole("show_info", 10, Bool())
    whole("main_volume", 12, Int("B"))
    whole("main_pitch", 80, Int("h"))
    whole("pan_law", 23, Int("B"))
    whole("swing", 11, Int("B"), ["channels"])
    whole("fit_to_steps", 13, Int("B"), ["channels"])
    whole("height", 133, Int("I"), ["channels"])
    whole("play_cut_notes", 30, Bool(), ["patterns"])
    whole("num", 17, Int("B"), ["arrangements", "time_signature"])
    whole("beat", 18, Int("B"), ["arrangements", "time_signature"])
    whole("apdc", 29, Int("B"), ["mixer"])
    for k, ev in enumerate(doc.groups):
        doc.add(["channels", "groups", k], "name", Whole(ev, T), "channel")
    if g(217):
        if len(g(217).data) >= 8:
            doc.add(["arrangements"], "loop_pos", Slice(g(217), 0, spec.Pair("I")), tag)
    else:
        whole("loop_pos", 152, spec.Pair("H"), ["arrangements"])


def make_doc(src, opt=None):
    opt = opt or Opt()
    doc = Doc()
    vtext = src.pick(opt.versions)
    doc.version = tuple(int(x) for x in vtext.split("."))
    doc.uni = ref.is_unicode(doc.version)
    rnd = src.rnd()
    doc.ppq = rnd.pick((96, *ref.PPQS))
    doc.fmt = rnd.pick(sorted(ref.FORMATS)) if opt.formats else 0
    doc.nchan = rnd.int(0, 65535)
    vev = Ev(199, vtext.encode() + b"\0")
    doc.meta[199] = vev
    out = []
    if opt.unknown and src.chance(20):
        out.append(_fixed(rnd, rnd.pick(ref.UNKNOWN_FIXED)))
    out.append(vev)
    if (rnd.zero or rnd.chance(0.8)) if len(doc.version) == 4 else rnd.chance(0.4):
        e = Ev(159, struct.pack("<I", doc.version[3] if len(doc.version) == 4 else
                                rnd.int(0, 2 ** 32 - 1)))
        doc.meta[159] = e
        out.append(e)
    meta = make_meta(src, doc, opt) if opt.meta else []
    for e in meta:
        doc.meta[e.id] = e
    late = [e for e in meta if e.id == 133]
    out += [e for e in meta if e.id != 133]

    nch = opt.count(src, "channels", opt.channels)
    ngroups = src.int(1, 3) if nch else src.int(0, 1)
    for _ in range(ngroups):
        e = Ev(231, Text(doc.uni).gen(rnd))
        doc.groups.append(e)
        out.append(e)
    iids = []
    while len(iids) < nch:
        v = len(iids)
        if rnd.chance(0.3):     # up to 20480 can be placed in playlists
            v = rnd.pick((20480, 20479, rnd.int(0, 20480))) if opt.arrangements else \
                rnd.int(0, 65535)
        if v not in iids:
            iids.append(v)
    if rnd.chance(0.3):
        rnd.r.shuffle(iids)
    for i, iid in enumerate(iids):
        doc.channels.append(make_channel(src, doc, opt, i, iid, ngroups))
    for i, ch in enumerate(doc.channels):
        finish_channel(src, doc, i, ch, iids)
    npat = opt.count(src, "patterns", opt.patterns)
    pids = []
    while len(pids) < npat:
        v = len(pids) + 1 if not rnd.chance(0.3) else rnd.pick((rnd.int(1, 999), 45055, 999) if opt.arrangements else
                                                               (rnd.int(0, 65535), 0, 65535))
        if v not in pids:
            pids.append(v)
    for i, pid in enumerate(pids):
        doc.patterns.append(make_pattern(src, doc, opt, i, pid))
    # first blocks, channel 0, second blocks, other channels (as FL Studio does), or mixed
    stream = []
    first = [p["blocks"][0] for p in doc.patterns]
    rest = [b for p in doc.patterns for b in p["blocks"][1:]]
    chans = [c["evs"] for c in doc.channels]
    m = src.int(0, 3)
    if m == 0:
        stream = first + chans[:1] + rest + chans[1:]
    elif m == 1:
        stream = first + rest + chans
    elif m == 2:
        stream = chans + first + rest
    else:
        stream = first[:]
        others = rest[:]
        for c in chans:
            stream.append(c)
            k = rnd.int(0, len(others))
            stream += others[:k]
            others = others[k:]
        stream += others
    for b in stream:
        out += b
    narr = opt.count(src, "arrangements", opt.arrangements)
    for i in range(narr):
        doc.arrangements.append(make_arrangement(src, doc, opt, i))
        out += doc.arrangements[-1]["evs"]
    if narr and src.chance(80):
        e = Ev(100, struct.pack("<H", rnd.int(0, narr - 1) if not rnd.chance(0.1) else
                                rnd.pick((narr, narr + 1, 255, 256, 65535))))
        doc.meta[100] = e
        out.append(e)
    if src.chance(60):
        e = _fixed(rnd, 29)
        doc.meta[29] = e
        out.append(e)
    nins = opt.count(src, "inserts", opt.inserts)
    for i in range(nins):
        doc.inserts.append(make_insert(src, doc, opt, i, nins))
        out += doc.inserts[-1]["evs"]
    if nins:
        make_params(src, doc, nins)
        if doc.params is not None:
            out.append(doc.params)
    out += late
    if opt.unknown:
        for _ in range(src.pick((0, 0, 1, 4))):
            out.insert(rnd.int(out.index(vev) + 1, len(out)), unknown_event(rnd))
    project_fields(doc)
    doc.events = out
    if not rnd.chance(0.1):
        doc.nchan = nch if not rnd.chance(0.3) else rnd.int(0, 65535)
    return doc


@st.composite
def docs(draw, opt=None):
    return make_doc(Src(draw), opt)
