"""C14: a repository database answers as the union of its parts"""
import itertools
import os
import shutil
from io import BytesIO

from mc import gitref as g
from mc import world
from mc.core import Violation, expect, expect_eq
from mc.dbcheck import check_db, check_prefixes, release_maps
from mc.world import Dir, MODEL, NAMES, OBJECTS

PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = "explicit state exploration: all sequences of changes of the directories, stores, queries and refreshes up to a depth are executed on the real code and compared with a set model; all distributions of objects over parts"
LEVEL_NOTE = ("Every sequence over the alphabets up to the depth, from several initial states. Modification times of the pack directory are made to differ with every change, "
              "as a refresh is only promised to notice what the file system tells.")
RULE = ("Histories: operations = somebody adds/removes loose objects, packs (full, ofs and ref delta entries, v1/v2 index), alternates (relative, nested, missing, cyclic, created or removed later), "
        "repacks; the database stores, is queried, refreshed (forced or not). At the end of each history, after a refresh, membership (both ways), info, stream, enumeration and prefix lookup of all names of "
        "the universe are compared with the union computed from the model; queries in between must answer for what is not being changed. Distributions: all pairs of subsets of 7 parts for two objects. "
        "states: distinct model states (directory contents x what the handle has been told); transitions: operations; traces: histories executed on the real code.")
BOUNDS = {"quick": "4 alphabets of 12-14 operations, depth 4, 1-3 initial states each; objects in, and missing from, each of the 256 directories; 64x64 distributions over 6 parts (every 2nd); all styles of alternates lines",
          "thorough": "depth 5; 128x128 distributions over 7 parts; all styles of alternates lines"}
ASSUMPTIONS = ["modification time of the pack directory increases whenever its content changes"]
CASE_TIMEOUT = 60


# ------------------------------------------------------------------ world
class World:
    def __init__(self, ctx, init):
        self.base = ctx.fresh_dir("w")
        self.r = Dir(self.base + "/repo/objects", packdir=init != "bare")
        self.a = [Dir(self.base + "/alt%d/objects" % i) for i in range(3)]
        self.r.create()
        if init == "full":
            self.r.add_loose(0)
            self.r.add_pack("p0", (0, 1, 2), "ofs")
            self.a[0].create()
            self.a[0].add_loose(3)
            self.a[0].add_pack("p1", (1, 3), "ref", 1)
            self.r.set_alternates([(self.a[0].path, self.a[0])])
        elif init == "rings":
            for i, a in enumerate(self.a):
                a.create()
                a.add_loose(i)
            self.r.set_alternates([(self.a[0].path, self.a[0])])
            self.a[0].set_alternates([("../../alt2/objects", self.a[2])])
        elif init == "alts":
            for a in self.a[:2]:
                a.create()
            self.a[0].add_loose(3)
            self.a[1].add_loose(2)
            self.r.set_alternates([(self.a[0].path, self.a[0])])
        from gitdb.db import GitDB
        self.db = GitDB(self.r.path)
        self.settled()
        self.asked = 0

    def now(self):
        return self.r.visible()

    def changed(self):
        v = set(self.now())
        self.always &= v
        self.ever |= v
        copies = self.r.copies()
        if set(self.copies) - set(copies):
            self.removed = True
        self.copies = copies

    def settled(self):
        v = self.now()
        self.always, self.ever, self.removed, self.copies = set(v), set(v), False, self.r.copies()

    def key(self):
        def d(x):
            return (x.exists, sorted(n.hex()[:4] for n in x.loose), sorted(x.packs), [l[-20:] for l, _ in x.alternates])
        return repr((d(self.r), [d(a) for a in self.a], sorted(n.hex()[:4] for n in self.always), sorted(n.hex()[:4] for n in self.ever), self.removed, self.asked))

    def model(self):
        return {n: world.known(n) for n in self.now()}

    def query(self, what):
        """Ask for everything. What did not change since the last refresh has to be answered, unless something was removed, content has to be right in any case"""
        from gitdb.exc import BadObject
        self.asked = min(self.asked + 1, 1)
        db = self.db
        sure = not self.removed
        names = NAMES + sorted(world.HIDDEN)
        for sha in names:
            must = sure and sha in self.always
            mustnot = sha not in self.ever
            for how in ("has", "in", "info", "stream"):
                try:
                    if how == "has":
                        r = db.has_object(sha)
                    elif how == "in":
                        r = sha in db
                    else:
                        i = getattr(db, how)(sha)
                        r = True
                        got = (bytes(i.binsha), bytes(i.type), i.size)
                        typ, data = world.known(sha)
                        expect_eq(got, (sha, typ, len(data)), "%s: %s" % (what, how))
                        if how == "stream":
                            expect_eq(bytes(i.read()), data, "%s: content" % what)
                except BadObject:
                    r = False
                except (OSError, AssertionError, ValueError):
                    if sure:
                        raise
                    continue
                if must:
                    expect(r is True, "%s: %s of %s.., which was there all the time, is not answered", what, how, sha.hex()[:8])
                if mustnot and sure:
                    expect(r is False, "%s: %s of %s.., which never existed, answers", what, how, sha.hex()[:8])
        if sure:
            got = {bytes(s) for s in db.sha_iter()}
            expect(self.always <= got <= self.ever, "%s: sha_iter yields %s", what, [s.hex()[:8] for s in got])

    def refresh(self, force, what):
        r = self.db.update_cache(force)
        expect(r in (True, False), "%s: update_cache returned %r", what, r)
        self.settled()

    def check(self, what):
        model = self.model()
        absent = [n for n in NAMES + sorted(world.HIDDEN) if n not in model]
        check_db(self.db, model, absent, what, unique=False)
        expect_eq(len(self.db.databases()) > 0, True, "databases")

    def close(self):
        self.db = None
        shutil.rmtree(self.base)


def op_store(i):
    def run(w):
        from gitdb import IStream
        typ, data = OBJECTS[i]
        s = w.db.store(IStream(typ, len(data), BytesIO(data)))
        expect_eq(bytes(s.binsha), NAMES[i], "name of the stored object")
        w.r.loose.add(NAMES[i])
        w.changed()
        w.always.add(NAMES[i])
        # visible at once, if only files were not taken away which the handle knows
        if w.removed:
            return
        expect(NAMES[i] in w.db, "object stored just now is not in the database")
        r = w.db.stream(NAMES[i])
        expect_eq((bytes(r.type), r.size, bytes(r.read())), (typ, len(data), data), "object stored just now")
        expect(os.path.exists(os.path.join(w.r.path, world.loose_path(NAMES[i]))), "stored object is not in loose storage")
    return run


def ext(fn, guard=lambda w: True):
    def run(w):
        fn(w)
        w.changed()
    run.guard = guard
    return run


def toggle_pack(which, tag, members, style="full", version=2):
    def fn(w):
        d = which(w)
        if tag in d.packs:
            d.del_pack(tag)
        else:
            d.add_pack(tag, members, style, version)
    return ext(fn, lambda w: which(w).exists)


def toggle_loose(which, i):
    def fn(w):
        d = which(w)
        if NAMES[i] in d.loose:
            d.del_loose(i)
        else:
            d.add_loose(i)
    return ext(fn, lambda w: which(w).exists)


def toggle_alt(which, target, line=lambda w, t: t.path):
    def fn(w):
        d, t = which(w), target(w)
        ln = line(w, t)
        if ln in [x for x, _ in d.alternates]:
            d.set_alternates([a for a in d.alternates if a[0] != ln])
        else:
            d.set_alternates(d.alternates + [(ln, t)])
    return ext(fn, lambda w: which(w).exists)


def toggle_dir(target, fill):
    def fn(w):
        t = target(w)
        if t.exists:
            t.destroy()
        else:
            t.create()
            fill(t)
    return ext(fn)


def rm_packdir(w):
    for t in list(w.r.packs):
        w.r.del_pack(t)
    shutil.rmtree(w.r.path + "/pack")
    w.r.packdir = False


def both(*fns):
    def run(w):
        for f in fns:
            f(w)
    return run


R, A0, A1, A2 = (lambda w: w.r), (lambda w: w.a[0]), (lambda w: w.a[1]), (lambda w: w.a[2])
OPS = {
    "s0": op_store(0), "s4": op_store(4), "s2": op_store(2),
    "q": lambda w: w.query("query"),
    "u": lambda w: w.refresh(False, "refresh"), "U": lambda w: w.refresh(True, "forced refresh"),
    "uc": both(lambda w: w.refresh(False, "refresh"), lambda w: w.check("after refresh")),
    "l0": toggle_loose(R, 0), "l1": toggle_loose(R, 1), "l3": toggle_loose(R, 3),
    "p0": toggle_pack(R, "p0", (0, 1, 2), "ofs"), "p1": toggle_pack(R, "p1", (1, 3), "ref", 1), "p2": toggle_pack(R, "p2", (0, 2, 4)),
    "repack": ext(lambda w: w.r.repack("all", (0, 1, 2, 3, 4), "ofs")),
    "rmpacks": ext(rm_packdir, lambda w: w.r.packdir),
    "@0": toggle_alt(R, A0), "@1": toggle_alt(R, A1), "@rel1": toggle_alt(R, A1, lambda w, t: os.path.relpath(t.path, w.r.path)),
    "@2of0": toggle_alt(A0, A2), "@0of1": toggle_alt(A1, A0), "@Rof0": toggle_alt(A0, R), "@RofR": toggle_alt(R, R),
    "d0": toggle_dir(A0, lambda t: t.add_loose(3)), "d1": toggle_dir(A1, lambda t: t.add_pack("p2", (0, 2, 4))), "d2": toggle_dir(A2, lambda t: t.add_loose(4)),
    "@2of1": toggle_alt(A1, A2), "@0of2": toggle_alt(A2, A0), "@1of2": toggle_alt(A2, A1, lambda w, t: os.path.relpath(t.path, w.a[2].path)),
    "@Rof0'": toggle_alt(A0, R, lambda w, t: "../../repo/objects/"), "@0of0": toggle_alt(A0, A0, lambda w, t: "."),
    "0l1": toggle_loose(A0, 1), "0p1": toggle_pack(A0, "p1", (1, 3), "ref", 1), "1p0": toggle_pack(A1, "p0", (0, 1, 2)), "1l3": toggle_loose(A1, 3), "2l0": toggle_loose(A2, 0),
}

ALPHABETS = {
    # what happens in one objects directory
    "own": ("l0", "l3", "p0", "p1", "p2", "repack", "rmpacks", "s0", "s2", "q", "u", "U"),
    # what happens to alternates
    "alt": ("@0", "@rel1", "@2of0", "d0", "d1", "d2", "0l1", "0p1", "s4", "q", "u", "U"),
    # alternates which refer to each other
    "net": ("@0", "@1", "@0of1", "@2of0", "@Rof0", "@RofR", "l0", "p0", "1l3", "2l0", "d2", "q", "u"),
    # ... in circles which do not lead to us, by any name
    "ring": ("@0", "@1", "@2of0", "@2of1", "@0of2", "@1of2", "@Rof0'", "@0of0", "0l1", "2l0", "q", "u"),
}


def histories(ctx, alphabet, init, depth, part, parts):
    ops = ALPHABETS[alphabet]
    n = 0
    for k, seq in enumerate(itertools.product(ops, repeat=depth)):
        if k % parts != part:
            continue
        # several refreshes in a row, or one at the end, are covered by others
        if any(a in "uU" and b in "uU" or a == b == "q" for a, b in zip(seq, seq[1:])):
            continue
        done = []

        def run():
            w = World(ctx, init)
            try:
                for op in seq:
                    fn = OPS[op]
                    if not getattr(fn, "guard", lambda w: True)(w):
                        return None
                    fn(w)
                    done.append(op)
                    ctx.distinct("states", w.key())
                w.refresh(False, "last refresh")
                w.check("at the end")
                ctx.distinct("states", w.key())
            finally:
                w.close()
            return True
        if ctx.run("%s/%s/%s" % (alphabet, init, ",".join(seq)), run):
            ctx.count("traces")
            ctx.count("transitions", len(seq) + 1)
        n += 1
        if n % 50 == 0:
            release_maps()
        ctx.sample({"history": "%s: %s" % (init, " ".join(seq))}, 1)


# ------------------------------------------------------------------ distributions
PARTS = ("loose", "pack", "pack2", "alt-loose", "alt-pack", "nested-pack", "alt2-loose")


def distribution(ctx, s0, s1):
    from gitdb.db import GitDB
    base = ctx.fresh_dir("d")
    r = Dir(base + "/r").create()
    a, n, b = Dir(base + "/a").create(), Dir(base + "/n").create(), Dir(base + "/b").create()
    r.set_alternates([("../a", a), (b.path, b)])
    a.set_alternates([(n.path, n)])
    where = {"loose": r, "pack": r, "pack2": r, "alt-loose": a, "alt-pack": a, "nested-pack": n, "alt2-loose": b}
    for p, name in enumerate(PARTS):
        members = [i for i, s in ((0, s0), (2, s1)) if s >> p & 1]
        if not members:
            continue
        if "loose" in name:
            for i in members:
                where[name].add_loose(i)
        else:
            where[name].add_pack(name, members + ([3] if name == "pack2" else []), ("full", "ofs", "ref")[p % 3], 1 + p % 2)
    db = GitDB(r.path)
    model = {x: world.known(x) for x in r.visible()}
    absent = [x for x in NAMES + sorted(world.HIDDEN) if x not in model]
    check_db(db, model, absent, "%x/%x" % (s0, s1), unique=len(r.visible()) == len(model))
    # once more, everything is cached now, in another order
    check_db(db, dict(reversed(list(model.items()))), absent, "%x/%x again" % (s0, s1), unique=False, prefixes=False)
    shutil.rmtree(base)


def distributions(ctx, nparts, part, parts, stride):
    n = 0
    for s0 in range(1 << nparts):
        for s1 in range(1 << nparts):
            if (s0 * (1 << nparts) + s1) % parts != part or (s0 + s1) % stride:
                continue
            ctx.run("dist/%x,%x" % (s0, s1), distribution, ctx, s0, s1)
            ctx.distinct("states", ("dist", s0, s1))
            ctx.count("transitions")
            ctx.count("traces")
            n += 1
            if n % 50 == 0:
                release_maps()


# ------------------------------------------------------------------ all directories of loose objects
def fanouts(ctx, kinds):
    """An object in each of the 256 directories, or in all but one"""
    from gitdb.db import GitDB, LooseObjectDB
    objs, n = {}, 0
    while len(objs) < 256:
        o = (b"blob", b"fan out %d" % n)
        objs.setdefault(g.obj_sha(*o)[:1], o)
        n += 1
    base = ctx.fresh_dir("f")

    def put(d, o):
        p = os.path.join(d, world.loose_path(g.obj_sha(*o)))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(g.Z(1)(g.canonical(*o)))
    full = base + "/full/objects"
    for o in objs.values():
        put(full, o)
    os.makedirs(base + "/user/objects/info")
    with open(base + "/user/objects/info/alternates", "w") as f:
        f.write("../../full/objects\n")

    def run(kind, first):
        o = objs[bytes([first])]
        sha = g.obj_sha(*o)
        d = base + "/one/objects"
        if kind == "only":
            put(d, o)
            model, absent = {sha: o}, [g.obj_sha(*x) for x in objs.values() if x is not o]
            dbs = [LooseObjectDB(d), GitDB(d)]
        else:
            os.unlink(os.path.join(full, world.loose_path(sha)))
            model, absent = {g.obj_sha(*x): x for x in objs.values() if x is not o}, [sha]
            dbs = [LooseObjectDB(full), GitDB(full), GitDB(base + "/user/objects")]
        for db in dbs:
            what = "%s %s %02x" % (type(db).__name__, kind, first)
            expect_eq(sorted(db.sha_iter()), sorted(model), what + ": sha_iter")
            expect_eq(db.size(), len(model), what + ": size")
            for x in [sha] + absent[:1] + [g.obj_sha(*objs[bytes([first ^ 1])])]:
                expect(db.has_object(x) is (x in model), "%s: has_object(%s..) is wrong", what, x.hex()[:8])
            check_prefixes(db, model, absent[:2], what, lengths=(6,)) if kind == "only" or first % 16 == 0 else None
        if kind == "only":
            shutil.rmtree(base + "/one")
        else:
            put(full, o)
    for kind in kinds:
        for first in range(256):
            ctx.run("fan/%s/%02x" % (kind, first), run, kind, first)
            ctx.distinct("states", ("fan", kind, first))
            ctx.count("transitions")
            ctx.count("traces")


# ------------------------------------------------------------------ the alternates file
LINES = {
    "absolute": lambda base: base + "/alt/objects", "relative": lambda base: "../../alt/objects", "dotted": lambda base: base + "/repo/../alt/./objects",
    "slash": lambda base: base + "/alt/objects/", "doubled": lambda base: base + "//alt/objects",
    "trailing space": lambda base: base + "/alt/o ", "tab": lambda base: "../../alt/\to\t",
}
FORMS = {
    "plain": "%s\n", "no newline": "%s", "blank lines": "\n\n%s\n\n", "comment": "# a comment\n%s\n", "missing first": "/nonexistent/objects\n%s\n", "missing last": "%s\n/nonexistent/objects\n",
    "crlf": "# from elsewhere\r\n%s\r\n", "many": "@many%s\n", "many after": "%s\n@many",
    "twice": "%s\n%s\n", "file": "/etc/hostname\n%s\n", "missing relative": "../nothing/here\n%s\n",
}
# directories may have any name
PLACES = ("plain", "with space", "gl[o]b*", "[!x]", "ünï", "a'b\"c", "per%cent", "#hash", "back\\slash", "{brace}", "latin\udce9", "line\u2028separator", "next\x85line\x0b\x1c", "tab\t", "~", "$HOME", "nul\x01")


def alternates_file(ctx, place, line, form, packed):
    from gitdb.db import GitDB
    base = ctx.fresh_dir("f") + "/" + place
    r, a = Dir(base + "/repo/objects").create(), Dir(base + "/alt/objects").create()
    for name in ("/alt/o ", "/alt/\to\t"):
        os.symlink("objects", base + name)
    r.add_pack("p", (2,))
    if packed:
        a.add_pack("p", (0, 1), "ofs")
    else:
        a.add_loose(0)
        a.add_loose(1)
    ln = LINES[line](base)
    text = FORMS[form].replace("%s", ln)
    many = []
    if "@many" in text:
        # each with an object of its own
        for i in range(12):
            m = Dir(base + "/more%d/objects" % i).create()
            name = g.obj_sha(b"blob", b"of alternate %d" % i)
            os.mkdir(m.path + "/" + name.hex()[:2])
            with open(m.path + "/" + name.hex()[:2] + "/" + name.hex()[2:], "wb") as f:
                f.write(g.Z(1)(g.canonical(b"blob", b"of alternate %d" % i)))
            many.append((name, (b"blob", b"of alternate %d" % i)))
        text = text.replace("@many", "".join(("../.." if i % 2 else base) + "/more%d/objects\n" % i for i in range(12)))
    when = {"before": True, "after": False}
    for w in when:
        if w == "before":
            r.set_alternates([(ln, a)], text)
            db = GitDB(r.path)
        else:
            os.unlink(r.path + "/info/alternates")
            db = GitDB(r.path)
            check_db(db, {n: MODEL[n] for n in NAMES[2:3]}, [], "before the alternate is there", unique=False)
            r.set_alternates([(ln, a)], text)
            db.update_cache()
        model = dict([(x, world.known(x)) for x in r.visible()] + many)
        check_db(db, model, [NAMES[4]], "alternate %r in %r, %s" % (line, form, w), unique=True)
        db.update_cache()
        check_db(db, model, [NAMES[4]], "alternate %r in %r, refreshed" % (line, form), unique=True, prefixes=False)
    shutil.rmtree(os.path.dirname(base))


def files(ctx, places):
    for place in places:
        for line in LINES:
            if place == "#hash" and line == "nothing":
                continue
            for form in FORMS:
                for packed in (True, False):
                    ctx.run("file/%d/%s/%s/%d" % (PLACES.index(place), line, form, packed), alternates_file, ctx, place, line, form, packed)
                    ctx.distinct("states", ("file", place, line, form, packed))
                    ctx.count("transitions", 2)
                    ctx.count("traces")
        release_maps()
    ctx.sample({"alternates": [LINES["relative"]("/x")], "place": repr(places[0])}, 1)


def units(tier, seed):
    quick = tier == "quick"
    out = []
    depth = 4 if quick else 5
    parts = 12 if quick else 48
    for alphabet, inits in (("own", ("bare", "full")), ("alt", ("alts", "full")), ("net", ("alts", "full")), ("ring", ("rings",))):
        for init in inits:
            for part in range(parts):
                out.append(("hist-%s-%s-%d" % (alphabet, init, part), histories, dict(alphabet=alphabet, init=init, depth=depth, part=part, parts=parts)))
    np = 6 if quick else 7
    for part in range(16):
        out.append(("dist-%d" % part, distributions, dict(nparts=np, part=part, parts=16, stride=2 if quick else 1)))
    for kind in ("only", "but"):
        out.append(("fan-" + kind, fanouts, dict(kinds=(kind,))))
    for p in PLACES:
        out.append(("file-%d" % PLACES.index(p), files, dict(places=(p,))))
    return out
