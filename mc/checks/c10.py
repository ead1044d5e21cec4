"""C10: dying at any instant leaves the database consistent"""
import mmap
import os
import shutil
from io import BytesIO

from mc import fsx, gitref as g
from mc.core import HarnessError, Violation, expect, expect_eq
from mc.dbcheck import check_db, check_objects_dir, release_maps
from mc.fixtures import content
from mc.inputs import loose_path

PROPERTY = "C10"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive crash point enumeration: the real code is killed before every single file system call that changes anything, and after every prefix of every write; recovery checked against an independent reader"
LEVEL_NOTE = ("Every mutating file system call of each scenario, each torn write (all prefixes of small writes, selected ones of large writes), and crash pairs. "
              "Crash of the process, not of the machine: what was handed to the kernel persists.")
RULE = ("Scenarios = operation (store fresh / store encoded / copy from memory / create pack / sequences of them) x kind of database x previous content of the "
        "directory. For each, the sequence of file system calls is recorded; the operation is executed again in a process that is killed before call k, for every k, "
        "or after a prefix of write k. Then new and surviving database handles are compared with the reference reader, old objects with their content, and the "
        "operation is repeated (and, for pairs, killed again). Non-trivial: distinct (scenario, crash point).")
BOUNDS = {"quick": "all calls; torn writes: every prefix up to 64 bytes, then ~20 per write; crash pairs for a third of the scenarios",
          "thorough": "all calls; torn writes: every prefix up to 2000 bytes; crash pairs of all scenarios, with torn first writes"}
ASSUMPTIONS = ["data handed to the kernel survives the death of the process (no power loss)"]
NEEDS_FSX = True
CASE_TIMEOUT = 60

OLD_LOOSE = [(b"blob", b"old loose"), (b"tree", b"")]
OLD_PACKED = [(b"commit", b"old packed"), (b"blob", content("rand", 300))]


def same_fanout(obj):
    """An object whose name starts with the same two digits"""
    first = g.obj_sha(*obj)[0]
    n = 0
    while True:
        o = (b"blob", b"neighbour %d" % n)
        if g.obj_sha(*o)[0] == first and o != obj:
            return o
        n += 1


def write_loose(objects, obj, raw=None):
    p = os.path.join(objects, loose_path(g.obj_sha(*obj)))
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(raw or g.Z(9)(g.canonical(*obj)))
    os.chmod(p, 0o444)


def write_pack(objects, objs):
    os.makedirs(objects + "/pack", exist_ok=True)
    g.write_pack(objects + "/pack", [g.E("full", *o) for o in objs])


def initial(objects, kind, objs):
    """:return: the objects there"""
    os.makedirs(objects)
    model = []
    if kind == "none":
        return {}
    if kind in ("loose", "both", "fanout", "exists", "half"):
        for o in OLD_LOOSE:
            write_loose(objects, o)
        model += OLD_LOOSE
    if kind in ("packed", "both", "half"):
        write_pack(objects, OLD_PACKED)
        model += OLD_PACKED
    if kind == "packdir":
        os.makedirs(objects + "/pack")
    if kind == "fanout":
        for o in objs:
            write_loose(objects, same_fanout(o))
            model.append(same_fanout(o))
    if kind == "exists":
        write_loose(objects, objs[0])
        model.append(objs[0])
    return {g.obj_sha(*o): o for o in model}


class Progress:
    """Tells from the dying process what was completed"""

    def __init__(self):
        self.m = mmap.mmap(-1, 8)

    def reset(self):
        self.m[0] = 0

    def done(self):
        self.m[0] += 1

    def count(self):
        return self.m[0]


# operations: fn(objects directory, progress, objs). They report each completed object, or pack
def open_db(kind, objects, chunk):
    from gitdb.db import LooseObjectDB, GitDB
    if kind == "git":
        db = GitDB(objects)
        if chunk:
            for d in db.databases():
                if isinstance(d, LooseObjectDB):
                    d.stream_chunk_size = chunk
    else:
        db = LooseObjectDB(objects)
        if chunk:
            db.stream_chunk_size = chunk
    return db


def op_store(objects, progress, objs, db="loose", chunk=None):
    from gitdb import IStream
    d = open_db(db, objects, chunk)
    for typ, data in objs:
        s = d.store(IStream(typ, len(data), BytesIO(data)))
        assert bytes(s.binsha) == g.obj_sha(typ, data)
        progress.done()


def op_raw(objects, progress, objs, db="loose", chunk=None):
    from gitdb import IStream
    d = open_db(db, objects, chunk)
    for typ, data in objs:
        d.store(IStream(typ, len(data), BytesIO(g.Z(1)(g.canonical(typ, data))), g.obj_sha(typ, data)))
        progress.done()


def op_copy(objects, progress, objs, db="loose", chunk=None):
    """From a memory database"""
    from gitdb import IStream
    from gitdb.db import MemoryDB
    m = MemoryDB()
    for typ, data in objs:
        m.store(IStream(typ, len(data), BytesIO(data)))
    d = open_db(db, objects, chunk)
    for typ, data in objs:
        m.stream_copy([g.obj_sha(typ, data)], d)
        progress.done()


def op_pack(objects, progress, objs, split=0, verify=False):
    """Create one pack, or several ones"""
    from gitdb import OStream
    from gitdb.pack import PackEntity
    os.makedirs(objects + "/pack", exist_ok=True)
    for part in [objs] if not split else [objs[i:i + split] for i in range(0, len(objs), split)]:
        e = PackEntity.create([OStream(g.obj_sha(t, d), t, len(d), BytesIO(d)) for t, d in part], objects + "/pack")
        if verify:
            for t, d in part:
                assert e.is_valid_stream(g.obj_sha(t, d), use_crc=True)
        for _ in part:
            progress.done()


def op_mixed(objects, progress, objs):
    """Store all, pack all"""
    op_store(objects, progress, objs, "git")
    op_pack(objects, progress, objs)


OPS = {"store": op_store, "raw": op_raw, "copy": op_copy, "pack": op_pack, "mixed": op_mixed}


def scenarios(tier):
    """(name, operation, arguments, initial content, objects)"""
    quick = tier == "quick"
    small = (b"blob", b"new object")
    empty = (b"tag", b"")
    mid = (b"tree", content("rand", 700))
    text = (b"commit", content("text", 5000))
    big = (b"blob", content("rand", 150000))
    out = []
    for oname in ("store", "raw", "copy"):
        for init in ("none", "loose", "both", "packdir", "fanout", "exists"):
            for db in ("loose", "git"):
                if quick and db == "git" and init not in ("none", "both"):
                    continue
                out.append((oname, dict(db=db), init, [small]))
        for obj in (empty, mid, text, big):
            out.append((oname, dict(db="loose"), "both", [obj]))
            out.append((oname, dict(db="git", chunk=4096 if len(obj[1]) > 2000 else 100), "both", [obj]))
        out.append((oname, dict(db="git"), "both", [small, empty, text]))
        out.append((oname, dict(db="loose"), "fanout", [small, same_fanout(same_fanout(small)), small]))
    for init in ("none", "packdir", "packed", "both", "exists"):
        out.append(("pack", {}, init, [small]))
        out.append(("pack", {}, init, [mid, empty, text]))
    out.append(("pack", {}, "both", [big, small]))
    out.append(("pack", dict(split=1, verify=True), "both", [small, mid, empty]))
    out.append(("pack", {}, "packed", OLD_PACKED))       # the very pack that is there
    out.append(("pack", dict(split=1), "both", OLD_PACKED + OLD_LOOSE))
    out.append(("mixed", {}, "both", [small, mid]))
    if not quick:
        for n in (1, 2, 20, 100, 8192, 8193, 65536, 300000):
            o = (b"blob", content("rand", n))
            for oname in ("store", "raw", "copy"):
                out.append((oname, dict(db="git", chunk=max(1, n // 5)), "fanout", [o]))
            out.append(("pack", {}, "both", [o, small]))
        out.append(("mixed", {}, "fanout", [small, mid, text]))
        out.append(("mixed", {}, "both", [big, text]))
    return [("%s-%s-%s-%s" % (o, "+".join("%s=%s" % kv for kv in sorted(a.items())) or "-", i, "+".join("%s%d" % (t.decode()[:2], len(d)) for t, d in objs)),
             o, a, i, objs) for o, a, i, objs in out]


def torn(size, tier):
    """Prefixes of a write to be tried"""
    if tier == "thorough":
        if size <= 2000:
            return list(range(size))
        return sorted({0, 1, 2, 7, 8, 100, 1024, 4095, 4096, size // 2, size - 1, size - 2, size - 20, size - 21} | set(range(0, size, max(1, size // 200))))
    if size <= 64:
        return list(range(size))
    return sorted({0, 1, 2, 11, 12, size // 3, size // 2, size - 1, size - 4, size - 20, size - 21, size - 40} | set(range(0, size, size // 8)))


class Runner:
    def __init__(self, ctx, oname, args, init, objs):
        self.ctx, self.init, self.objs = ctx, init, objs
        self.op = lambda objects, progress: OPS[oname](objects, progress, objs, **args)
        self.template = ctx.fresh_dir("t") + "/objects"
        self.old = initial(self.template, init, objs)
        self.new = {g.obj_sha(*o): o for o in objs}
        self.absent = [s for s in self.new if s not in self.old] + [g.obj_sha(b"blob", b"never stored")]
        self.progress = Progress()
        self.oname = oname

    def fresh(self):
        d = self.ctx.fresh_dir("c") + "/objects"
        shutil.copytree(self.template, d)
        return d

    def execute(self, d, mode, k=-1, partial=-1):
        """Run the operation in a child. :return: exit status"""
        self.progress.reset()
        fsx.new(d)

        def child():
            fsx.arm(mode, fsx.MUTATING, k, 0, partial)
            self.op(d, self.progress)
            fsx.disarm()
        r = fsx.in_child(child)
        self.ctx.count("executions")
        return r

    def points(self, d):
        r = self.execute(d, fsx.LOG)
        if r != 0:
            raise Violation("the operation fails without any interference")
        return fsx.log()

    def completed(self):
        """Names of what was reported as done by the process that died"""
        n = self.progress.count()
        objs = self.objs + (self.objs if self.oname == "mixed" else [])
        return {g.obj_sha(*o): o for o in objs[:n]}

    def recover(self, d, done, survivor, what):
        """All that has to hold in the directory after the process died"""
        now = check_objects_dir(d, self.absent, what)
        for sha, o in list(self.old.items()) + list(done.items()):
            expect(now.get(sha) == o, "%s: object %s is gone", what, sha.hex()[:8])
        for sha, o in now.items():
            expect(sha in self.old or sha in self.new, "%s: object %s appeared", what, sha.hex()[:8])
        if survivor is not None:
            for sha, o in self.old.items():
                expect(survivor.has_object(sha) and bytes(survivor.stream(sha).read()) == o[1], "%s: surviving handle misses %s", what, sha.hex()[:8])
            survivor.update_cache(True)
            check_db(survivor, now, self.absent, what + ": surviving handle after update", unique=False)
        return now

    def finish(self, d, what):
        """Repeat the operation without interference"""
        r = self.execute(d, fsx.LOG)
        expect(r == 0, "%s: repeating the operation fails", what)
        now = check_objects_dir(d, [], what + ", repeated")
        want = dict(self.old)
        want.update(self.new)
        expect_eq(sorted(now), sorted(want), what + ", repeated: objects")
        expect(now == want, "%s, repeated: content of objects", what)

    def crash(self, k, partial, pair=None):
        from gitdb.db import GitDB
        d = self.fresh()
        survivor = GitDB(d)
        if (k or 0) % 2:
            # one which has seen everything, otherwise one that is loaded after the crash
            check_db(survivor, self.old, [], "before", unique=False, prefixes=False)
        what = "dying %s call %d" % ("before" if partial < 0 else "%d bytes into" % partial, k)
        r = self.execute(d, fsx.CRASH, k, partial)
        if r != 77:
            raise HarnessError("no crash at %d in %s: %s" % (k, d, r))
        done = self.completed()
        self.recover(d, done, survivor, what)
        if pair is not None:
            r = self.execute(d, fsx.CRASH, pair)
            if r == 77:
                what += ", and again before call %d" % pair
                done.update(self.completed())
                self.recover(d, done, None, what)
            else:
                expect(r == 0, "%s: repeating the operation fails", what)
                return False
        self.finish(d, what)
        shutil.rmtree(os.path.dirname(d))
        del survivor
        release_maps()
        return True


def scenario(ctx, name, oname, args, init, objs, pairs, part, parts):
    run = Runner(ctx, oname, args, init, objs)
    box = []

    def undisturbed():
        d = run.fresh()
        box.append(run.points(d))
        expect(run.progress.count() == len(objs) * (2 if oname == "mixed" else 1), "not everything was reported as done")
        run.recover(d, run.new, None, "undisturbed")
        run.finish(d, "undisturbed")
    only, ctx.only = ctx.only, None
    ctx.run("%s/undisturbed" % name, undisturbed)
    ctx.only = only
    points = box[0]
    if part == 0:
        ctx.count("calls", len(points))
    ctx.sample({"scenario": name, "calls": [str(p) for p in points][:30]}, 1)
    n = 0
    for k, p in enumerate(points):
        cuts = [-1] + (torn(p.size, ctx.tier) if p.kind == "write" else [])
        for cut in cuts:
            n += 1
            if n % parts == part:
                ctx.run("%s/%d:%s%s" % (name, k, p.kind, "" if cut < 0 else ":%d" % cut), run.crash, k, cut)
                ctx.distinct("nontrivial", (name, k, cut))
            if not pairs or (cut >= 0 and (ctx.tier == "quick" or cut % 7)):
                continue
            for k2 in range(len(points) + 3):
                n += 1
                if n % parts != part:
                    continue
                ctx.distinct("nontrivial", (name, k, cut, k2))
                if ctx.run("%s/%d:%s%s/then %d" % (name, k, p.kind, "" if cut < 0 else ":%d" % cut, k2), run.crash, k, cut, k2) is False:
                    break


def units(tier, seed):
    out = []
    for n, (name, oname, args, init, objs) in enumerate(scenarios(tier)):
        big = sum(len(d) for _, d in objs) > 100000
        parts = 1 if tier == "quick" and not big else 6
        pairs = tier == "thorough" or n % 3 == 0 and not big
        for part in range(parts):
            out.append(("%s#%d" % (name, part), scenario,
                        dict(name=name, oname=oname, args=args, init=init, objs=objs, pairs=pairs, part=part, parts=parts)))
    return out
