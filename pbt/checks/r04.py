"""Text events and text attributes."""
from hypothesis import strategies as st

from .. import edits, gen, ref, spec, sut
from ..doc import Ev
from ..engine import Check
from ..gen import Src

UNI = st.text(st.characters(blacklist_categories=["Cs"]), max_size=80).map(lambda s: s.rstrip("\0"))
ASC = st.text(st.characters(max_codepoint=127), max_size=80).map(lambda s: s.rstrip("\0"))


def versions(src):
    if src.chance(50):
        return src.pick(gen.VERSIONS)
    parts = [src.pick((11, 11, 10, 12, 1, 9, 20, 21)), src.pick((5, 4, 6, 0, 10, 11, 50)),
             src.int(0, 12)]
    if src.chance(40):
        parts.append(src.int(0, 5000))
    return ".".join(map(str, parts))


def is_text(f):
    return type(f.codec) is spec.Text


@st.composite
def cases(draw):
    src = Src(draw)
    doc = gen.make_doc(src, gen.Opt(channels=2, patterns=2, arrangements=1, inserts=1,
                                    versions=[versions(src)], density=5, plugins=False))
    ops = edits.draw_ops(src, doc, 1, 8, pred=is_text)
    texts = [src.draw(UNI if doc.uni else ASC) for _ in ops]
    if src.chance(25) and texts:
        texts[0] = texts[0][-1:] * src.pick((63, 64, 126, 127, 128, 300, 8191, 8192))
    return doc, ops, texts


class Texts(Check):
    name = "texts"
    quick = 90
    thorough = 2500
    rule = ("generated project of any version, its text attributes read, then 1-8 of them assigned "
            "generated strings, saved, compared byte for byte and reloaded; non-trivial: a "
            "non-empty string was assigned")

    def strategy(self):
        return cases()

    def describe(self, case):
        doc, ops, texts = case
        d = doc.describe()
        d["edits"] = [(doc.fields[o.field].label, t[:30]) for o, t in zip(ops, texts)]
        return d

    def run(self, case):
        doc, ops, texts = case
        fields = [f for f in doc.fields if is_text(f)]
        project = sut.load(doc.raw())
        find = sut.check_all(project, fields)
        self.tag("unicode" if doc.uni else "ascii")
        for op, text in zip(ops, texts):
            self.nontrivial = self.nontrivial or bool(text)
            f = doc.fields[op.field]
            edits.assign(find, f, text)
            f.place.put(ref.text_encode(text, doc.uni))
            sut.check_read(find, f, "after assigning %r, " % text)
            sut.check_read(sut.Finder(project), f, "after assigning %r, " % text)
        raw = edits.check_saved(project, doc)
        again = sut.load(raw)
        sut.check_all(again, fields, "after reloading, ")
        with sut.ok("version"):
            v = again.version
        sut.require((v.major,) == doc.version[:1], "version reads %r", v)


class NoVersion(Check):
    name = "no-version"
    quick = 40
    thorough = 400
    rule = ("text event before any version event: must fail with the version error; the same "
            "without the text event loads; all non-trivial")

    def strategy(self):
        return st.tuples(st.sampled_from(sorted(ref.TEXT - {199})), st.booleans(), st.booleans(),
                         st.integers(0, 2 ** 32 - 1))

    def run(self, case):
        id, later, uni, seed = case
        self.nontrivial = True
        rnd = spec.Rnd(seed)
        pre = [(e.id, e.data) for e in (gen.unknown_event(rnd) for _ in range(rnd.int(0, 3)))]
        text = (id, ref.text_encode(spec.rand_text(rnd, False), uni))
        post = [(199, b"20.8.4\0")] if later else []
        raw = ref.build(0, 1, 96, pre + [text] + post)
        sut.refused("text event %d before the version" % id, sut.exc.VersionNotDetected,
                    lambda: sut.parse(raw))
        sut.load(ref.build(0, 1, 96, [(199, b"20.8.4\0")] + pre))


class Threshold(Check):
    name = "threshold"
    quick = 200
    thorough = 3000
    rule = ("title stored for a random version near and far from 11.5, with 0-3 terminators; "
            "non-trivial: every case (both encodings are counted)")

    def strategy(self):
        return st.tuples(
            st.one_of(st.sampled_from((11, 10, 12)), st.integers(1, 40)),
            st.one_of(st.none(), st.sampled_from((4, 5, 6)), st.integers(0, 60)),
            st.one_of(st.none(), st.integers(0, 20)), st.one_of(st.none(), st.integers(0, 9999)),
            st.text("abcdefgh 123\t\0", max_size=12).map(lambda s: s.rstrip("\0")), st.integers(0, 3),
            st.sampled_from((0, 1, 2)))

    def run(self, case):
        major, minor, patch, build, text, nuls, vnuls = case
        self.nontrivial = True
        parts = [major]
        for p in (minor, patch, build):
            if p is None:
                break
            parts.append(p)
        uni = ref.is_unicode(parts)
        vtext = ".".join(map(str, parts))
        data = (text + "\0" * nuls).encode("utf-16-le" if uni else "ascii")
        raw = ref.build(0, 0, 96, [(199, vtext.encode() + b"\0" * vnuls), (194, data)])
        project = sut.load(raw)
        with sut.ok("title and version"):
            title, version = project.title, project.version
        sut.require(title == text, "version %s: title stored as %s reads %r", vtext, data.hex(),
                    title)
        want = tuple(parts) + (0,) * (3 - len(parts))
        got = (version.major, version.minor, version.patch) + (
            (version.build,) if version.build is not None else ())
        sut.require(got == want, "version %s reads %r", vtext, version)
        sut.require(sut.saved(project) == raw, "version %s: saved file differs", vtext)
        self.tag("unicode" if uni else "ascii")


PARTS = [Texts, NoVersion, Threshold]
ASSUMPTIONS = ["strings do not end in NUL characters and have no lone surrogates"]
