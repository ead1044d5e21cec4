"""C17: the memory database buffers and copies objects faithfully"""
import itertools
import os
import shutil
from io import BytesIO

from mc import gitref as g
from mc.core import Violation, expect, expect_eq
from mc.dbcheck import check_db, check_objects_dir, debris, disk, release_maps
from mc.fixtures import ZS, content
from mc.inputs import loose_path
from mc.world import Dir

PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = "explicit state exploration: all sequences of stores, stream accesses and copies up to a depth on the real code against a model; all combinations of source, request and target for copying"
LEVEL_NOTE = "Every sequence of operations up to the depth; every source subset x request sequence x target content x kind of target within the bounds; targets are checked with the reference reader."
RULE = ("Histories: store (fresh or encoded, again), obtain streams, read some or the rest of any stream obtained, rewind, copy to loose / repository / memory databases; after each operation data read and "
        "at the end all answers are compared with the model. Copies: all subsets of 3 objects in the source, all requests up to length 3 over 4 names (one of them nowhere), all subsets in the target, 4 kinds of "
        "target: count, exceptions, resulting content on disk, source. states: distinct model states; transitions: operations; traces: histories.")
BOUNDS = {"quick": "2 alphabets, depth 5; all 8 x 85 x 8 x 4 copies", "thorough": "depth 6; all 8 x 341 x 8 x 4 copies"}
CASE_TIMEOUT = 60

OBJ = [(b"blob", b""), (b"commit", b"some small content"), (b"blob", content("mix", 9000))]
NAMES = [g.obj_sha(*o) for o in OBJ]
NOWHERE = b"\x77" * 20


def istream(i, how):
    from gitdb import IStream
    typ, data = OBJ[i]
    if how == "fresh":
        return IStream(typ, len(data), BytesIO(data))
    return IStream(typ, len(data), BytesIO(ZS[how](g.canonical(typ, data))), NAMES[i])


class World:
    def __init__(self, ctx):
        from gitdb.db import MemoryDB
        self.ctx = ctx
        self.db = MemoryDB()
        self.have = set()
        self.streams = []               # [index of object, stream, position, ended]
        self.targets = {}
        self.dirs = []

    def key(self):
        return repr((sorted(self.have), [(i, p) for i, s, p in self.streams], {k: sorted(v[1]) for k, v in self.targets.items()}))

    def store(self, i, how):
        s = istream(i, how)
        r = self.db.store(s)
        expect(r is s, "store returns something else than the stream given to it")
        expect_eq(bytes(r.binsha), NAMES[i], "name of the stored object")
        self.have.add(i)

    def obtain(self, i):
        if i not in self.have:
            from gitdb.exc import BadObject
            for fn in (self.db.stream, self.db.info):
                try:
                    fn(NAMES[i])
                except BadObject:
                    continue
                raise Violation("%s of an object not stored does not raise BadObject" % fn.__name__)
            return
        s = self.db.stream(NAMES[i])
        expect_eq((bytes(s.type), s.size, bytes(s.binsha)), (OBJ[i][0], len(OBJ[i][1]), NAMES[i]), "stream")
        self.streams.append([i, s, 0])

    def read(self, k, n):
        if k >= len(self.streams):
            return
        st = self.streams[-1 - k]
        i, s, pos = st
        data = OBJ[i][1]
        got = bytes(s.read(n) if n >= 0 else s.read())
        want = data[pos:pos + n] if n >= 0 else data[pos:]
        expect_eq(got, want, "reading %d from position %d of the %s stream of object %d" % (n, pos, "last" if k == 0 else "previous", i))
        st[2] = pos + len(want)

    def rewind(self, k):
        if k < len(self.streams):
            st = self.streams[-1 - k]
            st[1].stream.seek(0)
            st[2] = 0

    def target(self, kind):
        if kind not in self.targets:
            from gitdb.db import GitDB, LooseObjectDB, MemoryDB
            if kind == "memory":
                self.targets[kind] = (MemoryDB(), set())
            else:
                d = Dir(self.ctx.fresh_dir("t") + "/objects").create()
                self.dirs.append(d)
                self.targets[kind] = (GitDB(d.path) if kind == "git" else LooseObjectDB(d.path), set(), d)
        return self.targets[kind]

    def copy(self, kind, request):
        t = self.target(kind)
        missing = {i for i in request if i not in t[1]}
        if missing - self.have:
            return
        n = self.db.stream_copy(iter([NAMES[i] for i in request]), t[0])
        expect_eq(n, len(missing), "number of objects copied to a %s database" % kind)
        t[1].update(missing)

    def into(self, kind, i):
        t = self.target(kind)
        t[0].store(istream(i, "fresh"))
        t[1].add(i)

    def check(self):
        model = {NAMES[i]: OBJ[i] for i in self.have}
        check_db(self.db, model, NAMES, "memory database", pieces=1000)
        for kind, t in self.targets.items():
            m = {NAMES[i]: OBJ[i] for i in t[1]}
            check_db(t[0], m, NAMES, "%s target" % kind)
            if len(t) > 2:
                expect_eq(disk(t[2].path), m, "objects on disk of the %s target" % kind)
                expect_eq(debris(t[2].path), [], "temporary files of the %s target" % kind)
        for st in self.streams:
            st[1].stream.seek(0)
            st[2] = 0
        for k in range(len(self.streams)):
            self.read(k, -1)

    def close(self):
        for d in self.dirs:
            shutil.rmtree(os.path.dirname(d.path))


OPS = {
    "f0": lambda w: w.store(0, "fresh"), "f1": lambda w: w.store(1, "fresh"), "f2": lambda w: w.store(2, "fresh"),
    "e0": lambda w: w.store(0, "l9"), "e1": lambda w: w.store(1, "stored1"), "e2": lambda w: w.store(2, "l1"),
    "g0": lambda w: w.obtain(0), "g1": lambda w: w.obtain(1), "g2": lambda w: w.obtain(2),
    "r": lambda w: w.read(0, 5), "r'": lambda w: w.read(1, 5), "k": lambda w: w.read(0, 4000), "R": lambda w: w.read(0, -1), "R'": lambda w: w.read(1, -1),
    "s": lambda w: w.rewind(0), "s'": lambda w: w.rewind(1),
    "i": lambda w: [w.db.info(NAMES[i]) for i in w.have] and None,
    "L": lambda w: w.copy("loose", sorted(w.have)), "L2": lambda w: w.copy("loose", [2, 2, 1]), "G": lambda w: w.copy("git", sorted(w.have, reverse=True)),
    "M": lambda w: w.copy("memory", sorted(w.have)), "tL": lambda w: w.into("loose", 1), "tM": lambda w: w.into("memory", 2),
}
ALPHABETS = {
    "streams": ("f1", "f2", "e2", "g1", "g2", "r", "r'", "k", "R", "R'", "s", "s'", "i", "M"),
    "copies": ("f0", "f1", "f2", "e1", "e2", "g2", "k", "R", "L", "L2", "G", "M", "tL", "tM"),
}


def histories(ctx, alphabet, depth, part, parts, prefix=()):
    for k, seq in enumerate(itertools.product(ALPHABETS[alphabet], repeat=depth)):
        if k % parts != part:
            continue
        # nothing to be seen before anything is stored
        if not prefix and seq[0][0] not in "fet":
            continue
        seq = tuple(prefix) + seq

        def run():
            w = World(ctx)
            try:
                for op in seq:
                    OPS[op](w)
                    ctx.distinct("states", w.key())
                w.check()
            finally:
                w.close()
        ctx.run("%s/%s" % (alphabet, ",".join(seq)), run)
        ctx.count("traces")
        ctx.count("transitions", len(seq))
        ctx.sample({"history": " ".join(seq)}, 1)


KINDS = ("loose", "git", "gitpacked", "memory")


def copy_case(ctx, src, request, dst, kind, how):
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB
    from gitdb.exc import BadObject
    m = MemoryDB()
    for i in range(3):
        if src >> i & 1:
            m.store(istream(i, how[i]))
    there = {i for i in range(3) if dst >> i & 1}
    d = None
    if kind == "memory":
        t = MemoryDB()
        for i in there:
            t.store(istream(i, "fresh"))
    else:
        d = ctx.fresh_dir("t") + "/objects"
        os.makedirs(d)
        if kind == "gitpacked" and there:
            os.makedirs(d + "/pack")
            g.write_pack(d + "/pack", [g.E("full", *OBJ[i]) for i in there])
        else:
            for i in there:
                p = os.path.join(d, loose_path(NAMES[i]))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(g.Z(5)(g.canonical(*OBJ[i])))
        t = LooseObjectDB(d) if kind == "loose" else GitDB(d)
        before = disk_files(d)
    # what is expected
    result, copied, fails = set(there), 0, False
    for i in request:
        if i in result:
            continue
        if i == 3 or not src >> i & 1:
            fails = True
            break
        result.add(i)
        copied += 1
    names = NAMES + [NOWHERE]
    # some readers are in the middle of their object
    readers = [m.stream(NAMES[i]) for i in range(3) if src >> i & 1]
    for r in readers:
        r.read(3)
    try:
        n = m.stream_copy([names[i] for i in request], t)
    except BadObject:
        expect(fails, "copying raised BadObject")
    else:
        expect(not fails, "copying an object the source lacks did not raise")
        expect_eq(n, copied, "number of objects copied")
    if fails:
        # those before the missing one may have been copied
        got = {i for i in range(3) if t.has_object(NAMES[i])}
        expect(there <= got <= result, "objects in the target after a failure: %s", got)
        result = got
    want = {NAMES[i]: OBJ[i] for i in result}
    check_db(t, want, NAMES, "target")
    if d:
        expect_eq(disk(d), want, "objects on disk")
        expect_eq(debris(d), [], "temporary files")
        after = disk_files(d)
        for p, c in before.items():
            expect_eq(after.get(p), c, "file %s which was there before" % p[:8])
        if (src + dst + len(request)) % 8 == 0:
            check_objects_dir(d, [NOWHERE], "target")
    check_db(m, {NAMES[i]: OBJ[i] for i in range(3) if src >> i & 1}, NAMES, "source afterwards")
    # once more: nothing left to do
    if not fails:
        expect_eq(m.stream_copy([names[i] for i in request], t), 0, "number of objects copied again")
    if d:
        shutil.rmtree(os.path.dirname(d))


def disk_files(d):
    out = {}
    for r, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(r, f)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (st.st_ino, st.st_size, st.st_mtime_ns)
    return out


def copies(ctx, maxlen, src, kind):
    n = 0
    for length in range(maxlen + 1):
        for request in itertools.product(range(4), repeat=length):
            for dst in range(8):
                how = [("fresh", "l9", "full7"), ("l0", "stored1", "l6"), ("fresh", "fresh", "fresh"), ("lead40", "fresh", "trail3000")][n % 4]
                n += 1
                cid = "copy/%s/%d/%s/%d" % (kind, src, "".join(map(str, request)), dst)
                ctx.run(cid, copy_case, ctx, src, request, dst, kind, how)
                ctx.distinct("states", cid)
                ctx.count("transitions")
                ctx.count("traces")
                if n % 50 == 0:
                    release_maps()


def units(tier, seed):
    quick = tier == "quick"
    out = []
    parts = 16 if quick else 96
    depth = 5 if quick else 6
    for part in range(parts):
        out.append(("hist-streams-%d" % part, histories, dict(alphabet="streams", depth=depth - 1, part=part, parts=parts, prefix=("f2",))))
        out.append(("hist-both-%d" % part, histories, dict(alphabet="streams", depth=depth - 1, part=part, parts=parts, prefix=("e1", "f2", "g2"))))
        out.append(("hist-copies-%d" % part, histories, dict(alphabet="copies", depth=depth - 1, part=part, parts=parts)))
    for src in range(8):
        for kind in KINDS:
            out.append(("copy-%d-%s" % (src, kind), copies, dict(maxlen=3 if quick else 4, src=src, kind=kind)))
    return out
