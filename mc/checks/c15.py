"""C15: pack database answers do not depend on query history"""
import itertools
import os
import shutil

from mc import tsched
tsched.patch()      # before the code under test creates its locks

from mc import gitref as g, interfere, world     # noqa: E402
from mc.core import expect, expect_eq   # noqa: E402
from mc.dbcheck import check_db, release_maps   # noqa: E402
from mc.world import Dir, NAMES   # noqa: E402

PROPERTY = "C15"
LEVEL = "model_checking"
TECHNIQUE = "explicit state exploration: all sequences of pack changes, queries, bursts of queries and refreshes up to a depth are executed on the real code and compared with a model; all periodic query sequences over the re-prioritisation interval; all points of a refresh or query at which somebody else changes the directory"
LEVEL_NOTE = "Every sequence of operations up to the depth from every initial state; the model of the covered packs is exact, answers are compared with the reference reader's objects."
RULE = ("Histories: operations = add/remove each of 3 overlapping packs (whole, only one of pack and index), touch the directory, query everything in either order, bursts of 500 queries of one object, "
        "obtain streams, refresh (forced or not). After each refresh: its return value, the set of entities, all answers of all names, all streams obtained before. Bursts: every periodic sequence of up to 3 (4) "
        "names, present and absent, 1600 queries long, each answer checked. Changes meanwhile: somebody adds, removes, replaces packs file by file, at each line of a refresh, query or enumeration; it must not fail (but for files which vanished), and after another refresh all answers are right. Numbers of packs: any up to 130 (quick: every 2nd), and 200 to 400. states: distinct model states; transitions: operations; traces: histories.")
BOUNDS = {"quick": "14 operations, one with the clock set back, depth 4, 3 initial states; all periods up to 3; changes meanwhile: at all lines of 5 operations x 6 changes x 3 states, 2 switches for some", "thorough": "depth 5; all periods up to 4; changes meanwhile: 2 switches, first 2 executions of each line"}
ASSUMPTIONS = ["modification time of the pack directory differs after a change"]
CASE_TIMEOUT = 60

PACKS = {"p0": ((0, 1, 2), "ofs", 2), "p1": ((1, 3), "ref", 1), "p2": ((0, 2, 4), "full", 2)}


class World:
    def __init__(self, ctx, init):
        from gitdb.db import PackedDB
        self.base = ctx.fresh_dir("w")
        self.d = Dir(self.base + "/objects").create()
        for t in init:
            self.d.add_pack(t, *PACKS[t])
        self.half = {}                  # tag: extension which is there
        self.db = PackedDB(self.d.path + "/pack")
        self.covered = None             # {tag: ...} as loaded last
        self.dirty = True               # changed since
        self.stale = False              # something loaded was removed
        self.streams = []
        self.bursts = 0

    def key(self):
        return repr((sorted(self.d.packs), sorted(self.half.items()), self.covered and sorted(self.covered), self.dirty, self.stale, len(self.streams), self.bursts))

    def touched(self):
        self.dirty = True
        if self.covered is not None and set(self.covered) - set(self.d.packs):
            self.stale = True

    def loaded(self):
        """The database is used: it has to be loaded if it is not yet"""
        if self.covered is None:
            self.covered, self.dirty = dict(self.d.packs), False

    def model(self):
        return {n: world.known(n) for stem, names in self.covered.values() for n in names}

    def names(self):
        return NAMES + sorted(world.HIDDEN)

    def query(self, names):
        from gitdb.exc import BadObject
        self.loaded()
        model = self.model()
        for sha in names:
            for how in ("has", "info", "stream"):
                try:
                    if how == "has":
                        r = self.db.has_object(sha)
                    else:
                        i = getattr(self.db, how)(sha)
                        r = True
                        typ, data = world.known(sha)
                        expect_eq((bytes(i.binsha), bytes(i.type), i.size), (sha, typ, len(data)), how)
                        if how == "stream":
                            expect_eq(bytes(i.read()), data, "content")
                except BadObject:
                    r = False
                except OSError:
                    if self.stale:
                        continue
                    raise
                if not self.stale:
                    expect(r is (sha in model), "%s(%s..) answers %s", how, sha.hex()[:8], r)

    def open_streams(self):
        if self.stale:
            return
        self.entities("before streams are opened")
        for n, sha in enumerate(sorted(self.model())):
            s = self.db.stream(sha)
            first = bytes(s.read(1)) if n % 2 else b""
            self.streams.append((sha, s, first))

    def read_streams(self, what):
        for sha, s, first in self.streams:
            expect_eq(first + bytes(s.read()), world.known(sha)[1], "%s: stream of %s.. obtained before" % (what, sha.hex()[:8]))
            s.stream.seek(0) if hasattr(s.stream, "seek") else None
            expect_eq(bytes(s.read()), world.known(sha)[1], "%s: stream of %s.. obtained before, rewound" % (what, sha.hex()[:8]))
        self.streams = []

    def refresh(self, force, what):
        want = force or self.dirty or self.covered is None
        r = self.db.update_cache(force)
        expect(r is want, "%s: update_cache(%s) returned %r, expected %r", what, force, r, want)
        if want:
            self.covered, self.dirty, self.stale = dict(self.d.packs), False, False
        self.entities(what)

    def entities(self, what):
        self.loaded()
        got = sorted(os.path.basename(e.pack().path()) for e in self.db.entities())
        expect_eq(got, sorted(stem + ".pack" for stem, _ in self.covered.values()), what + ": packs covered")

    def burst(self, i, n=500):
        if self.stale:
            return
        self.loaded()
        self.bursts = min(self.bursts + 1, 3)
        want = NAMES[i] in self.model()
        for _ in range(n):
            if self.db.has_object(NAMES[i]) is not want:
                expect(False, "has_object(%s..) answers %s in a burst", NAMES[i].hex()[:8], not want)

    def check(self, what):
        model = self.model()
        check_db(self.db, model, [n for n in self.names() if n not in model], what, unique=False)
        self.entities(what)

    def close(self):
        self.db, self.streams = None, []
        shutil.rmtree(self.base)


def toggle(tag, back=False):
    def run(w):
        if w.half.get(tag):
            return False
        if tag in w.d.packs:
            w.d.del_pack(tag)
        else:
            w.d.add_pack(tag, *PACKS[tag])
        if back:
            w.d._touch(True)
        w.touched()
    return run


def half(tag, ext):
    """Only one of the two files is there; it is made complete, or taken away, by the next one"""
    def run(w):
        other = ".idx" if ext == ".pack" else ".pack"
        if w.half.get(tag) == ext:
            stem, pack, idx, ents = world.image(*PACKS[tag])
            with open("%s/pack/%s%s" % (w.d.path, stem, other), "wb") as f:
                f.write(idx if other == ".idx" else pack)
            w.d.packs[tag] = (stem, set(ents))
            del w.half[tag]
        elif w.half.get(tag):
            return False
        elif tag in w.d.packs:
            stem = w.d.packs.pop(tag)[0]
            os.unlink("%s/pack/%s%s" % (w.d.path, stem, other))
            w.half[tag] = ext
        else:
            stem, pack, idx, ents = world.image(*PACKS[tag])
            with open("%s/pack/%s%s" % (w.d.path, stem, ext), "wb") as f:
                f.write(pack if ext == ".pack" else idx)
            w.half[tag] = ext
        w.d._touch()
        w.touched()
    return run


def touch(w):
    w.d._touch()
    w.dirty = True


OPS = {
    "p0": toggle("p0"), "p1": toggle("p1"), "p2": toggle("p2"), "h0": half("p0", ".pack"), "i1": half("p1", ".idx"),
    "touch": touch,
    "back": toggle("p2", True),
    "q": lambda w: w.query(w.names()), "r": lambda w: w.query(w.names()[::-1]), "b1": lambda w: w.burst(1), "b4": lambda w: w.burst(4),
    "s": lambda w: w.open_streams(), "u": lambda w: w.refresh(False, "refresh"), "U": lambda w: w.refresh(True, "forced refresh"),
}


def histories(ctx, init, depth, part, parts):
    n = 0
    for k, seq in enumerate(itertools.product(OPS, repeat=depth)):
        if k % parts != part:
            continue

        def run():
            w = World(ctx, init)
            try:
                for op in seq:
                    if OPS[op](w) is False:
                        return None
                    ctx.distinct("states", w.key())
                w.refresh(False, "last refresh")
                w.check("at the end")
                w.read_streams("at the end")
                w.refresh(False, "nothing changed")
            finally:
                w.close()
            return True
        if ctx.run("%s/%s" % ("+".join(init) or "empty", ",".join(seq)), run):
            ctx.count("traces")
            ctx.count("transitions", len(seq) + 2)
        n += 1
        if n % 50 == 0:
            release_maps()
        ctx.sample({"history": "%s: %s" % (init, " ".join(seq))}, 1)


def bursts(ctx, length, first):
    """Periodic sequences of queries"""
    from gitdb.db import PackedDB
    from gitdb.exc import BadObject
    base = ctx.fresh_dir("b")
    d = Dir(base + "/objects").create()
    for t in ("p0", "p1", "p2"):
        d.add_pack(t, *PACKS[t])
    absent = b"\1" * 20
    names = NAMES + [absent]
    for period in itertools.product(range(len(names)), repeat=length - 1):
        period = (first,) + period

        def run():
            db = PackedDB(d.path + "/pack")
            seq = [names[i] for i in period]
            for k in range(1600):
                sha = seq[k % len(seq)]
                if k % 7 == 3:
                    try:
                        i = db.info(sha)
                        got = (bytes(i.type), i.size)
                    except BadObject:
                        got = None
                    want = None if sha == absent else (world.known(sha)[0], len(world.known(sha)[1]))
                else:
                    got, want = db.has_object(sha), sha != absent
                if got != want:
                    expect(False, "query %d for %s..: got %s, expected %s", k, sha.hex()[:8], got, want)
            check_db(db, {n: world.known(n) for n in d.visible()}, [absent], "after 1600 queries", unique=False)
        ctx.run("burst/" + ",".join(map(str, period)), run)
        ctx.count("transitions", 1600)
        ctx.count("traces")
        ctx.distinct("states", ("burst", period))


# ------------------------------------------------------------------ many packs
def many(ctx, counts):
    """Each number of packs, of one object each, which come and go"""
    from gitdb.db import PackedDB
    top = max(counts)
    images = []
    for i in range(top):
        e = g.E("full", b"blob", b"object of pack %d" % i)
        pack = g.build_pack([e])
        images.append((e.name, pack, g.build_idx([(e.name, e.crc, e.offset)], pack[-20:], 2)))
    content = {name: (b"blob", b"object of pack %d" % i) for i, (name, _, _) in enumerate(images)}

    def path(d, i):
        return "%s/pack/pack-%s" % (d.path, images[i][1][-20:].hex())

    def run(n):
        d = Dir(ctx.fresh_dir("m") + "/objects").create()
        db = PackedDB(d.path + "/pack")
        have = {}

        def put(i):
            for ext, data in ((".pack", images[i][1]), (".idx", images[i][2])):
                with open(path(d, i) + ext, "wb") as f:
                    f.write(data)
            have[images[i][0]] = content[images[i][0]]

        def look(what):
            d._touch()
            expect(db.update_cache() is True, "%s: update_cache() does not reload", what)
            expect_eq(len(db.entities()), len(have), what + ": number of packs")
            check_db(db, have, [x[0] for x in images if x[0] not in have], what, prefixes=False)
        for i in range(n):
            put(i)
        look("%d packs" % n)
        for i in range(n, min(n + 3, top)):
            put(i)
        look("more packs")
        for i in range(0, n, 3):
            for ext in (".pack", ".idx"):
                os.unlink(path(d, i) + ext)
            del have[images[i][0]]
        look("less packs")
        del db
        d.destroy()
        release_maps()
    for n in counts:
        ctx.run("many/%d" % n, run, n)
        ctx.count("traces")
        ctx.count("transitions", 3)
        ctx.distinct("states", ("many", n))


# ------------------------------------------------------------------ changes during a refresh
CHANGES = {
    "add": lambda d: interfere.adding(d, "p2", PACKS["p2"]),
    "add-idx-first": lambda d: interfere.adding(d, "p2", PACKS["p2"], ".idx"),
    "remove": lambda d: interfere.removing(d, "p1"),
    "remove-pack-first": lambda d: interfere.removing(d, "p1", ".pack"),
    "replace": lambda d: interfere.adding(d, "p2", PACKS["p2"]) + interfere.removing(d, "p0"),
    "exchange": lambda d: interfere.removing(d, "p1") + interfere.adding(d, "p2", PACKS["p2"]),
}


def query(db):
    from gitdb.exc import BadObject
    for i in (0, 3, 4):
        try:
            db.stream(NAMES[i])
        except BadObject:
            pass


OPERATIONS = {"refresh": lambda db: db.update_cache() and None, "forced": lambda db: db.update_cache(True) and None, "query": query,
              "entities": lambda db: db.entities() and None, "enumerate": lambda db: list(db.sha_iter()) and None}


def during(ctx, state, operation, change, bound, visits, part, parts):
    def make():
        from gitdb.db import PackedDB
        base = ctx.fresh_dir("c")
        d = Dir(base + "/objects").create()
        d.add_pack("p0", *PACKS["p0"])
        if state != "changed":
            d.add_pack("p1", *PACKS["p1"])
        db = PackedDB(d.path + "/pack")
        if state != "cold":
            for n in NAMES:
                db.has_object(n)
        if state == "changed":
            d.add_pack("p1", *PACKS["p1"])
        return base, db, d
    for t in PACKS:
        world.image(*PACKS[t])
    interfere.explore(ctx, "during/%s/%s/%s" % (state, operation, change), make, OPERATIONS[operation], CHANGES[change], NAMES + sorted(world.HIDDEN), bound, visits, part, parts)


def units(tier, seed):
    quick = tier == "quick"
    out = []
    parts = 16 if quick else 96
    for init in ((), ("p0",), ("p0", "p1", "p2")):
        for part in range(parts):
            out.append(("hist-%s-%d" % ("+".join(init), part), histories, dict(init=init, depth=4 if quick else 5, part=part, parts=parts)))
    for length in (1, 2, 3) if quick else (1, 2, 3, 4):
        for first in range(6):
            out.append(("burst-%d-%d" % (length, first), bursts, dict(length=length, first=first)))
    for part in range(8):
        out.append(("many-%d" % part, many, dict(counts=(list(range(part, 130, 8)) + [200, 256, 300, 400][part % 4:part % 4 + 1])[::2 if quick else 1])))
    for state in ("cold", "warm", "changed"):
        for op in OPERATIONS:
            for change in CHANGES:
                deep = not quick or (op == "refresh" and change in ("add", "exchange") and state != "warm")
                parts = 4 if deep else 1
                for part in range(parts):
                    out.append(("during-%s-%s-%s-%d" % (state, op, change, part), during,
                                dict(state=state, operation=op, change=change, bound=2 if deep else 1, visits=1 if quick else 2, part=part, parts=parts)))
    return out
