"""Event views (EventTree) against a list model."""
from hypothesis import strategies as st

from .. import gen, ref, sut, walk
from ..engine import Check
from ..gen import Src

IDS = (1, 4, 64 + 13, 128 + 60, 250, 216)   # a small alphabet makes repeated IDs likely


class Token:
    """One event of the model; `ev` is the real one."""

    def __init__(self, id, data):
        self.id, self.data, self.ev = id, data, None


class View:
    def __init__(self, tree, tokens, parent, how):
        self.tree, self.tokens, self.parent, self.how = tree, tokens, parent, how

    def chain(self):
        v = self
        while v is not None:
            yield v
            v = v.parent


@st.composite
def histories(draw):
    src = Src(draw)
    n = src.int(0, 12)
    start = [src.pick(IDS) for _ in range(n)]
    ops = []
    for _ in range(src.int(1, 25)):
        k = src.pick(("insert", "append", "pop", "subtree", "divide", "separate", "group",
                      "insert", "pop", "subtrees", "remove", "iadd", "badpop", "insert"))
        ops.append((k, src.int(0, 30), src.int(0, 12), src.pick(IDS), src.int(0, 63),
                    src.int(0, 255)))
    return start, ops


def payload(id, x):
    if id >= 192:
        return bytes([x]) * (x % 7)
    return bytes([x]) * ref.width(id)


class Machine(Check):
    name = "history"
    quick = 220
    thorough = 6000
    rule = ("history of up to 25 operations (insert, append, +=, pop, remove, subtree, divide, "
            "separate, group, subtrees) on nested views of a loaded event list, compared with a "
            "list model after every step; non-trivial: an insertion or removal through a nested "
            "view")

    def strategy(self):
        return histories()

    def describe(self, case):
        start, ops = case
        return {"start": start, "ops": [list(o) for o in ops]}

    def new_event(self, id, x):
        import pyflp._events as ev
        cls = {1: ev.U8Event, 4: ev.U8Event, 77: ev.U16Event, 188: ev.U32Event}.get(
            id, ev.UnknownDataEvent)
        with sut.ok("creating an event"):
            t = Token(id, payload(id, x))
            t.ev = cls(ev.EventEnum(id), t.data)
        return t

    def run(self, case):
        start, ops = case
        tokens = [Token(199, b"20.8.4\0")] + [Token(i, payload(i, k + 1))
                                              for k, i in enumerate(start)]
        project = sut.load(ref.build(0, 1, 96, [(t.id, t.data) for t in tokens]))
        with sut.ok("listing events"):
            evs = list(project.events)
        sut.require(len(evs) == len(tokens), "wrong number of events")
        for t, e in zip(tokens, evs):
            t.ev = e
        root = View(project.events, list(tokens), None, "root")
        views = [root]
        for step, (k, vi, pos, id, mask, x) in enumerate(ops):
            v = views[vi % len(views)]
            what = "step %d, %s on %s" % (step, k, v.how)
            ids = [i for j, i in enumerate(IDS) if mask >> j & 1]
            if k in ("insert", "append", "iadd"):
                if not v.tokens:
                    continue
                new = [self.new_event(id, x)]
                if k == "iadd":
                    new += [self.new_event(IDS[mask % len(IDS)], x + 1 & 255)]
                at = len(v.tokens) if k != "insert" else pos % (len(v.tokens) + 1)
                with sut.ok(what):
                    if k == "insert":
                        v.tree.insert(at, new[0].ev)
                    elif k == "append":
                        v.tree.append(new[0].ev)
                    else:
                        tree = v.tree
                        tree += [t.ev for t in new]
                        sut.require(tree is v.tree, "%s gave another object", what)
                for t in new:
                    anchor = v.tokens[at] if at < len(v.tokens) else None
                    last = v.tokens[-1]
                    for a in v.chain():
                        if a is v:
                            a.tokens.insert(at, t)
                        elif anchor is not None:
                            a.tokens.insert(index(a.tokens, anchor), t)
                        else:
                            a.tokens.insert(index(a.tokens, last) + 1, t)
                    at += 1
                self.nontrivial = self.nontrivial or v is not root
                self.tag(k)
            elif k in ("pop", "remove", "badpop"):
                match = [t for t in v.tokens if t.id == id]
                if k == "badpop" or not match:
                    if match:
                        sut.refused(what, (IndexError,), lambda: v.tree.pop(ev_id(id), len(match)))
                    else:
                        sut.refused(what, (KeyError,), lambda: v.tree.pop(ev_id(id)))
                else:
                    n = pos % len(match)
                    t = match[n]
                    with sut.ok(what):
                        if k == "pop":
                            got = v.tree.pop(ev_id(id), n) if n else v.tree.pop(ev_id(id))
                        else:
                            v.tree.remove(ev_id(id), n)
                            got = t.ev
                    sut.require(got is t.ev, "%s returned another event", what)
                    live = set(map(builtin_id, v.chain()))
                    for a in v.chain():
                        a.tokens.remove(t)
                    # views that still hold the removed event are out of date
                    views = [w for w in views if builtin_id(w) in live
                             or not any(t in c.tokens for c in w.chain())]
                    self.nontrivial = self.nontrivial or v is not root
                    self.tag(k)
            else:
                made = self.derive(v, k, ids, id, x, what)
                views += made
                if len(views) > 14:
                    keep = views[1:]
                    views = [root] + keep[-13:]
                self.tag(k)
            for w in views:
                self.agree(w, root, what)
        out = sut.saved(project)
        want = ref.build(0, 1, 96, [(t.id, t.data) for t in root.tokens])
        sut.require(out == want, "saved events differ: %s", sut.diff(out, want))

    def derive(self, v, k, ids, id, x, what):
        with sut.ok(what):
            if k == "subtree":
                chosen = set(ids)
                if x % 3 == 0:          # every second match
                    state = []

                    def select(e):
                        if int(e.id) in chosen:
                            state.append(e)
                            return True if len(state) % 2 else None
                    n = [0]

                    def pick(t):
                        if t.id in chosen:
                            n[0] += 1
                            return bool(n[0] % 2)
                        return False
                    want = [[t for t in v.tokens if pick(t)]]
                else:
                    def select(e):
                        return True if int(e.id) in chosen else (None if x % 2 else False)
                    want = [[t for t in v.tokens if t.id in chosen]]
                got = [v.tree.subtree(select)]
            elif k == "divide":
                got = list(v.tree.divide(ev_id(id), *(ev_id(i) for i in ids)))
                want, cur, begun = [], [], False
                for t in v.tokens:
                    if t.id == id:
                        if begun:
                            want.append(cur)
                            cur = []
                        begun = True
                    if t.id in ids:
                        cur.append(t)
                if begun:
                    want.append(cur)
                # what precedes the first separator is left unspecified
                first = next((n for n, t in enumerate(v.tokens) if t.id == id), None)
                if first is not None and any(t.id in ids for t in v.tokens[:first]):
                    return []
            elif k == "separate":
                got = list(v.tree.separate(ev_id(id)))
                want = [[t] for t in v.tokens if t.id == id]
            elif k == "group":
                if not ids:
                    return []
                got = list(v.tree.group(*(ev_id(i) for i in ids)))
                cols = [[t for t in v.tokens if t.id == i] for i in ids]
                want = []
                for n in range(max(map(len, cols))):
                    row = [c[n] for c in cols if n < len(c)]
                    want.append(sorted(row, key=lambda t: index(v.tokens, t)))
            else:  # subtrees: split before each `id`, at most x % 4 times
                repeat = x % 4 + 1
                state = []

                def select(e):
                    if int(e.id) == id:
                        if state:
                            return False
                        state.append(1)
                        return True
                    return True if state and int(e.id) in ids else None
                got = list(v.tree.subtrees(select, repeat))
                want, cur, begun = [], [], False
                for t in v.tokens:
                    if t.id == id:
                        if begun:
                            want.append(cur)
                            cur = []
                        begun = True
                        cur.append(t)
                    elif begun and t.id in ids:
                        cur.append(t)
                if cur:
                    want.append(cur)
                want = want[:repeat]
        sut.require(len(got) == len(want), "%s gave %d views instead of %d", what, len(got),
                    len(want))
        made = [View(g, list(w), v, "%s of %s" % (k, v.how)) for g, w in zip(got, want)]
        for m in made:
            self.agree(m, None, what)
        return made[:4]

    def agree(self, w, root, what):
        with sut.ok("%s: listing %s" % (what, w.how)):
            got = list(w.tree)
            n = len(w.tree)
            ids = {int(i) for i in w.tree.ids}
        sut.require(len(got) == len(w.tokens) and all(
            a is t.ev for a, t in zip(got, w.tokens)),
            "%s: %s shows %r instead of %r", what, w.how, [(int(e.id), bytes(e).hex()) for e in got],
            [(t.id, t.data.hex()) for t in w.tokens])
        sut.require(n == len(w.tokens), "%s: len of %s", what, w.how)
        want = {t.id for t in w.tokens}
        sut.require(ids == want, "%s: ids of %s are %r", what, w.how, ids)
        with sut.ok("%s: lookups in %s" % (what, w.how)):
            for i in IDS:
                e = ev_id(i)
                match = [t.ev for t in w.tokens if t.id == i]
                sut.require((e in w.tree) == bool(match), "%s: %d in %s", what, i, w.how)
                sut.require(w.tree.count(e) == len(match), "%s: count(%d) of %s is %r", what, i,
                            w.how, w.tree.count(e))
                some = list(w.tree.get(e))
                sut.require(len(some) == len(match) and all(a is b for a, b in zip(some, match)),
                            "%s: get(%d) of %s", what, i, w.how)
                if match:
                    sut.require(w.tree.first(e) is match[0], "%s: first(%d) of %s", what, i, w.how)
                else:
                    sut.refused("first(%d) of %s" % (i, w.how), KeyError, lambda: w.tree.first(e))
            two = [ev_id(IDS[0]), ev_id(IDS[2])]
            sut.require([x for x in w.tree.get(*two)] == [
                t.ev for t in w.tokens if t.id in (IDS[0], IDS[2])], "%s: get of two IDs", what)
        if root is not None:
            place = {builtin_id(t): n for n, t in enumerate(root.tokens)}
            with sut.ok("indexes"):
                idx = sorted(w.tree.indexes)
            sut.require(idx == [place[builtin_id(t)] for t in w.tokens],
                        "%s: indexes of %s are %r", what, w.how, idx)


builtin_id = id


def index(tokens, t):
    return next(n for n, x in enumerate(tokens) if x is t)


def ev_id(i):
    import pyflp._events as ev
    return ev.EventEnum(i)


# decoding depends on these or on what they precede
CONTEXT = {199, 201, 212, 213}
HOLDERS = ("channels", "patterns", "arrangements", "mixer")


@st.composite
def project_histories(draw):
    src = Src(draw)
    doc = gen.make_doc(src, gen.Opt(channels=2, patterns=2, arrangements=2, inserts=2))
    ops = [(src.pick(("pop", "pop", "back", "move", "append")), src.int(0, 40), src.int(0, 60),
            src.int(0, 60)) for _ in range(src.int(1, 8))]
    return doc, ops


class Projects(Check):
    name = "projects"
    quick = 45
    thorough = 1200
    rule = ("events of a generated project are taken out, put back and moved through the "
            "project's list and through the views of its channels, patterns, arrangements, "
            "inserts and slots; the list and the view follow a list model, the save holds the "
            "resulting order, and every attribute of the edited project reads as in the reloaded "
            "file; non-trivial: an operation through a model's view")

    def strategy(self):
        return project_histories()

    def describe(self, case):
        d = case[0].describe()
        d["ops"] = [list(o) for o in case[1]]
        return d

    def views(self, project):
        out = [("project", project.events)]
        for h in HOLDERS:
            owner = getattr(project, h)
            out.append((h, owner.events))
            try:
                items = list(owner)
            except Exception:       # structure taken apart by earlier removals
                continue
            for i, m in enumerate(items):
                out.append(("%s[%d]" % (h, i), m.events))
                if h == "mixer":
                    out += [("%s[%d][%d]" % (h, i, k), s.events) for k, s in enumerate(m)]
        return out

    def run(self, case):
        doc, ops = case
        project = sut.load(doc.raw())
        with sut.ok("listing events"):
            evs = list(project.events)
        sut.require(len(evs) == len(doc.events), "wrong number of events")
        model = [(e, ref.frame(d.id, d.data)) for e, d in zip(evs, doc.events)]
        out = []        # events taken out
        for step, (k, vi, pos, to) in enumerate(ops):
            with sut.ok("finding the views"):
                views = self.views(project)
            how, view = views[vi % len(views)]
            what = "step %d, %s through %s" % (step, k, how)
            mine = list(view)
            place = {builtin_id(e): n for n, (e, _) in enumerate(model)}
            sut.require(all(builtin_id(e) in place for e in mine), "%s: the view shows events "
                        "which are not in the project", what)
            order = [place[builtin_id(e)] for e in mine]
            sut.require(order == sorted(set(order)), "%s: the view is not in file order", what)
            if k in ("pop", "move"):
                can = [n for n, e in enumerate(mine) if int(e.id) not in CONTEXT]
                if not can:
                    continue
                n = can[pos % len(can)]
                e = mine[n]
                nth = [x for x in mine if x.id == e.id]
                nth = next(j for j, x in enumerate(nth) if x is e)
                with sut.ok(what):
                    got = view.pop(e.id, nth)
                sut.require(got is e, "%s returned another event", what)
                del mine[n]
                out.append(model.pop(place[builtin_id(e)]))
                place = {builtin_id(e): n for n, (e, _) in enumerate(model)}
            if k in ("back", "append", "move"):
                if not out or not mine:
                    continue
                entry = out.pop(-1 if k == "move" else pos % len(out))
                lo = next((n for n, x in enumerate(mine) if int(x.id) == 199), -1) + 1
                at = len(mine) if k == "append" else lo + to % (len(mine) + 1 - lo)
                if at < len(mine):
                    root_at = place[builtin_id(mine[at])]
                else:
                    root_at = place[builtin_id(mine[-1])] + 1
                known = next(n for n, (x, _) in enumerate(model) if int(x.id) == 199)
                if root_at <= known:
                    out.append(entry)
                else:
                    with sut.ok(what):
                        view.append(entry[0]) if k == "append" else view.insert(at, entry[0])
                    mine.insert(at, entry[0])
                    model.insert(root_at, entry)
                    self.tag(k)
            self.tag("pop" if k == "pop" else "other")
            self.nontrivial = self.nontrivial or how not in ("project",)
            with sut.ok("listing events"):
                now, seen = list(project.events), list(view)
            sut.require(len(seen) == len(mine) and all(a is b for a, b in zip(seen, mine)),
                        "%s: the view shows %r instead of %r", what, [int(e.id) for e in seen],
                        [int(e.id) for e in mine])
            sut.require(len(now) == len(model) and all(a is b for a, (b, _) in zip(now, model)),
                        "%s: the project has %r instead of %r", what, [int(e.id) for e in now],
                        [int(e.id) for e, _ in model])
        raw = sut.saved(project)
        want = b"".join(b for _, b in model)
        sut.require(raw[22:] == want, "saved events differ: %s", sut.diff(raw[22:], want))
        again = sut.load(raw)
        d = walk.difference(walk.snapshot(project), walk.snapshot(again))
        sut.require(d is None, "the edited project reads differently from its saved file: %s", d)

PARTS = [Machine, Projects]
ASSUMPTIONS = ["insertion into an empty view has no defined place and is not exercised",
               "views that still show an event removed through another branch are out of date and "
               "no longer checked"]
