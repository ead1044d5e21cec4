"""C21: descriptors, mappings and memory are given back"""
import gc
import os
import shutil
import sys
import traceback
from array import array
from io import BytesIO
from itertools import product

from mc import gitref as g
from mc.core import HarnessError, expect, expect_eq
from mc.dbcheck import release_maps
from mc.fixtures import content
from mc.inputs import Reader, loose_path

PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of all histories of complete, partial, abandoned and failing operations on the real code, each repeated; "
             "open descriptors, mappings and live memory blocks of the process monitored after each")
LEVEL_NOTE = ("All histories up to the depth over the alphabet; each is repeated six times in one process with the same handles, so that whatever accumulates shows. "
              "Regions of packs and indices which smmap keeps for later are allowed while handles live, at most two for each file.")
RULE = ("A history is executed repeatedly with the same database handle. After each repetition, dropping all streams: no descriptor or mapping other than those of packs and indices in place; "
        "the second and later repetitions leave as many as the first, and as many blocks of memory. While streams are held: at most one descriptor more for each. After dropping the handles and smmap's collect(): "
        "nothing. Packs which are gone are not kept after a refresh, nor those which were closed. No temporary or lock file is left. Non-trivial: distinct histories.")
BOUNDS = {"quick": "49 operations, histories of 2, repeated 6 times; those of 3 over 26 operations which interact",
          "thorough": "histories of 3 over all operations"}
CASE_TIMEOUT = 60
REPEAT = 6
SLACK = {2: 0, 3: 0, 4: 0}

LOOSE = [(b"blob", b"a loose object"), (b"commit", content("rand", 20000))]
PACKED = [(b"blob", b"a packed object" * 30), (b"tree", content("rand", 9000))]
ALT = (b"tag", b"from the alternate")
BADL = b"\x11" * 20
ABSENT = b"\x22" * 20


def usage(root):
    """Descriptors and mappings below a directory: {path: number}, and the number of all descriptors"""
    fds, total = {}, 0
    for n in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        total += 1
        if p.startswith(root):
            fds[p] = fds.get(p, 0) + 1
    maps = {}
    with open("/proc/self/maps") as f:
        for line in f:
            i = line.find(root)
            if i >= 0:
                p = line[i:].rstrip("\n")
                maps[p] = maps.get(p, 0) + 1
    return fds, maps, total


def memory_use():
    """Number of objects, of elements in containers, and of bytes they hold. (The number of allocated blocks is no measure:
    the interpreter's own caches grow for long)"""
    objects = gc.get_objects()
    elements = size = 0
    seen = set()
    for o in objects:
        if type(o) in (list, dict, set):
            elements += len(o)
        if type(o) is tuple and len(o) > 10000:
            continue
        for r in gc.get_referents(o):
            if type(r) in (bytes, bytearray) and len(r) > 100 and id(r) not in seen:
                seen.add(id(r))
                size += len(r)
    return len(objects), elements, size


class World:
    def __init__(self, ctx):
        from gitdb.db import GitDB, LooseObjectDB, MemoryDB, PackedDB
        from gitdb.pack import PackEntity
        self.top = ctx.fresh_dir()
        self.root = self.top + "/objects"
        alt = self.top + "/alt"
        for r in (self.root, alt):
            os.makedirs(r + "/pack")
        os.makedirs(self.root + "/info")
        os.makedirs(self.top + "/out")
        for o, r in [(o, self.root) for o in LOOSE] + [(ALT, alt)]:
            self.put(r, g.obj_sha(*o), g.Z(1)(g.canonical(*o)))
        with open(self.root + "/info/alternates", "w") as f:
            f.write(alt + "\n")
        base = g.E("full", b"blob", b"base of a delta" * 10)
        # each with a delta, and an entry whose data is damaged
        from mc.checks.c09 import build
        res = b"base of a delta" + b"!"
        d = g.delta(150, 16, g.op_copy(0, 15), g.op_insert(b"!"))
        full = g.E("full", *PACKED[0])
        full2 = g.E("full", *PACKED[1])
        hurt = g.E("full", b"blob", content("rand", 3000))
        dl = g.E("ofs", data=d, base=0, result=res, name=g.obj_sha(b"blob", res))
        dl.typ = b"blob"
        ents = [base, full, full2, hurt, dl]
        data, items = build(ents)
        bad = bytearray(data)
        for i in range(hurt.offset + 200, hurt.offset + 240):
            bad[i] ^= 0x5a
        bad[hurt.offset + 2] ^= 0xff            # nothing can be read from it
        self.hurt, self.delta = hurt.name, dl.name
        g_idx = g.build_idx(items, data[-20:], 2)
        self.pack = self.root + "/pack/pack-" + "1" * 40 + ".pack"
        with open(self.pack, "wb") as f:
            f.write(bytes(bad))
        with open(self.pack[:-5] + ".idx", "wb") as f:
            f.write(g_idx)
        # another one, which comes and goes
        ents = [g.E("full", b"blob", b"it comes and goes")]
        data, items = build(ents)
        self.other = {"pack": data, "idx": g.build_idx(items, data[-20:], 2)}
        self.other_name = ents[0].name
        self.put(self.root, BADL, b"this is not zlib data")
        self.short = g.obj_sha(*LOOSE[1])[:19] + b"\x01"
        self.put(self.root, self.short, g.Z(1)(g.canonical(*LOOSE[1]))[:3000])
        # an empty one cannot be mapped
        self.empty = b"\x33" * 20
        self.put(self.root, self.empty, b"")
        self.db = GitDB(self.root)
        self.ldb = LooseObjectDB(self.root)
        self.pdb = PackedDB(self.root + "/pack")
        self.entity = PackEntity(self.pack)
        self.mdb = MemoryDB
        self.held = []
        self.t = 1700000000

    def put(self, root, sha, raw):
        p = os.path.join(root, loose_path(sha))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(raw)

    def drop(self, *objs):
        for o in objs:
            p = os.path.join(self.root, loose_path(g.obj_sha(*o)))
            if os.path.exists(p):
                os.unlink(p)

    def touch(self):
        self.t += 10
        os.utime(self.root + "/pack", (self.t, self.t))


def raises(fn, *args):
    try:
        fn(*args)
    except HarnessError:
        raise
    except Exception:
        return
    if os.environ.get("MC_STRICT"):
        raise HarnessError("%r should fail" % fn)           # to see that the histories are what they should be; whether it does is judged by other checks


def sha(o):
    return g.obj_sha(*o)


# operations
def queries(w):
    for s in (sha(LOOSE[0]), sha(PACKED[0]), w.delta, ABSENT):
        w.db.has_object(s)


def absent(w):
    for db in (w.db, w.ldb, w.pdb):
        raises(db.info, ABSENT)
        raises(db.stream, ABSENT)
    raises(w.db.partial_to_complete_sha_hex, ABSENT.hex()[:9])
    raises(w.ldb.partial_to_complete_sha_hex, ABSENT.hex()[:9])
    raises(w.pdb.partial_to_complete_sha, ABSENT[:4], 8)


def info(w):
    for s in (sha(LOOSE[0]), sha(LOOSE[1]), sha(PACKED[1]), w.delta, sha(ALT)):
        w.db.info(s)


def read_to_end(w):
    for s in (sha(LOOSE[1]), sha(PACKED[1]), w.delta, sha(ALT)):
        w.db.stream(s).read()


def read_some(w):
    for s in (sha(LOOSE[1]), sha(PACKED[1]), w.delta):
        w.db.stream(s).read(5)


def open_only(w):
    for s in (sha(LOOSE[0]), sha(LOOSE[1]), sha(PACKED[0]), w.delta):
        w.db.stream(s)


def rewind(w):
    s = w.db.stream(sha(LOOSE[1]))
    s.read(30)
    s.stream.seek(0)
    s.read()
    s.stream.seek(0)


def hold_loose(w):
    s = w.db.stream(sha(LOOSE[1]))
    s.read(9)
    w.held.append(s)


def hold_packed(w):
    s = w.db.stream(sha(PACKED[1]))
    s.read(9)
    w.held.append(s)


def hold_delta(w):
    w.held.append(w.db.stream(w.delta))


def release(w):
    if w.held:
        w.held.pop()


def finish(w):
    for s in w.held:
        s.read()


def bad_loose(w):
    for db in (w.db, w.ldb):
        raises(db.info, BADL)
        raises(db.stream, BADL)


def empty_loose(w):
    for db in (w.db, w.ldb):
        raises(db.info, w.empty)
        raises(db.stream, w.empty)


def short_loose(w):
    w.db.info(w.short)
    try:
        w.db.stream(w.short).read()
    except Exception:
        pass


def bad_packed(w):
    raises(lambda: w.db.stream(w.hurt).read())
    raises(lambda: w.entity.stream(w.hurt).read())


def abbreviation(w):
    w.db.partial_to_complete_sha_hex(sha(LOOSE[0]).hex()[:10])
    w.db.partial_to_complete_sha_hex(w.delta.hex()[:10])


def ambiguous(w):
    raises(w.ldb.partial_to_complete_sha_hex, w.short.hex()[:20])


def enumerate_all(w):
    list(w.db.sha_iter())
    w.db.size()


def enumerate_part(w):
    next(iter(w.db.sha_iter()))
    next(iter(w.ldb.sha_iter()))
    next(iter(w.pdb.sha_iter()))


def store(w):
    from gitdb import IStream
    o = (b"blob", b"to be stored" * 50)
    w.db.store(IStream(o[0], len(o[1]), BytesIO(o[1])))
    w.drop(o)


def store_known(w):
    from gitdb import IStream
    w.db.store(IStream(LOOSE[0][0], len(LOOSE[0][1]), BytesIO(LOOSE[0][1])))


def store_failing(w):
    from gitdb import IStream
    raises(lambda: w.db.store(IStream(b"blob", 100, Reader(b"x" * 100, None, fail_at=50))))
    raises(lambda: w.ldb.store(IStream(b"blob", 100, Reader(b"x" * 50))))


def store_encoded(w):
    from gitdb import IStream
    o = (b"blob", b"encoded")
    w.db.store(IStream(o[0], len(o[1]), BytesIO(g.Z(1)(g.canonical(*o))), sha(o)))
    w.drop(o)


def store_encoded_failing(w):
    from gitdb import IStream
    raises(lambda: w.db.store(IStream(b"blob", 7, Reader(b"x" * 100, None, fail_at=50), b"\x44" * 20)))


def store_blocked(w):
    """The directory for the object cannot be made"""
    from gitdb import IStream
    o = (b"blob", b"blocked")
    p = os.path.dirname(os.path.join(w.root, loose_path(sha(o))))
    if os.path.isdir(p):
        return
    open(p, "w").close()
    raises(lambda: w.ldb.store(IStream(o[0], len(o[1]), BytesIO(o[1]))))
    os.unlink(p)


def redirect(w):
    from gitdb import IStream
    from gitdb.stream import Sha1Writer, ZippedStoreShaWriter
    for s in (Sha1Writer(), ZippedStoreShaWriter()):
        w.ldb.set_ostream(s)
        w.ldb.store(IStream(b"blob", 3, BytesIO(b"abc")))
        w.ldb.set_ostream(None)


def memory(w):
    from gitdb import IStream
    m = w.mdb()
    for o in LOOSE:
        m.store(IStream(o[0], len(o[1]), BytesIO(o[1])))
    m.stream(sha(LOOSE[1])).read(7)
    m.stream_copy([sha(LOOSE[0])], w.ldb)
    raises(m.stream_copy, [ABSENT], w.ldb)


def refresh(w):
    w.db.update_cache(force=True)
    w.pdb.update_cache(force=True)
    w.ldb.update_cache(force=True)


def come_and_go(w):
    """A pack appears, is used, and disappears"""
    stem = w.root + "/pack/pack-" + "2" * 40
    for e in ("pack", "idx"):
        with open(stem + "." + e, "wb") as f:
            f.write(w.other[e])
    w.touch()
    for db in (w.db, w.pdb):
        db.update_cache()
        db.stream(w.other_name).read()
    for e in ("idx", "pack"):
        os.unlink(stem + "." + e)
    w.touch()
    for db in (w.db, w.pdb):
        db.update_cache()
        raises(db.stream, w.other_name)


def broken_pack(w):
    """A pack appears which cannot be opened"""
    stem = w.root + "/pack/pack-" + "3" * 40
    for e in ("pack", "idx"):
        with open(stem + "." + e, "wb") as f:
            f.write(b"this is none" * 200)
    w.touch()
    for db in (w.db, w.pdb):
        for f in (lambda: db.update_cache(), lambda: db.has_object(ABSENT), lambda: db.info(ABSENT), lambda: list(db.sha_iter())):
            try:
                f()
            except Exception:
                pass
    for e in ("idx", "pack"):
        os.unlink(stem + "." + e)
    w.touch()
    for db in (w.db, w.pdb):
        db.update_cache(force=True)


def fresh_handles(w):
    from gitdb.db import GitDB, PackedDB
    GitDB(w.root).stream(sha(PACKED[0])).read(3)
    PackedDB(w.root + "/pack").has_object(ABSENT)


def fresh_entity(w):
    from gitdb.pack import PackEntity
    e = PackEntity(w.pack)
    e.stream(w.delta).read()
    e.info_at_index(0)
    next(e.stream_iter())
    raises(e.info, ABSENT)


def closing(w):
    from gitdb.pack import PackFile, PackIndexFile, PackEntity
    p = PackFile(w.pack)
    p.info(12)
    p.stream(12).read(3)
    p.close()
    i = PackIndexFile(w.pack[:-5] + ".idx")
    i.sha_to_index(w.delta)
    i.close()
    e = PackEntity(w.pack)
    e.stream(w.delta)
    e.close()


def closed(w):
    """What was closed is not kept, although the objects still are there"""
    from gitdb.pack import PackFile, PackIndexFile, PackEntity
    stem = w.top + "/out/pack-" + "4" * 40
    for x in ("pack", "idx"):
        with open(stem + "." + x, "wb") as f:
            f.write(w.other[x])
    p, i, e = PackFile(stem + ".pack"), PackIndexFile(stem + ".idx"), PackEntity(stem + ".pack")
    p.info(12), p.size(), i.size(), i.sha(0), i.offsets()
    e.stream(w.other_name).read()
    for o in (p, i, e):
        o.close()
    release_maps()
    fds, maps, _ = usage(stem)
    for x in ("pack", "idx"):
        os.unlink(stem + "." + x)
    expect(not fds and not maps, "closed, but still open or mapped: %s", sorted({x[len(w.top):] for x in list(fds) + list(maps)}))
    del p, i, e


def walk(w):
    from gitdb.pack import PackFile
    p = PackFile(w.pack)
    it = p.stream_iter()
    next(it).read()
    next(it)
    try:
        for o in PackFile(w.pack).stream_iter():
            pass
    except Exception:
        pass
    list(w.entity.info_iter())


def verify(w):
    for s in (sha(PACKED[0]), w.delta):
        w.entity.is_valid_stream(s, use_crc=True)
        w.entity.is_valid_stream(s)
    for c in (True, False):
        try:
            w.entity.is_valid_stream(w.hurt, use_crc=c)
        except Exception:
            pass
    raises(w.entity.is_valid_stream, ABSENT)


def checksums(w):
    from gitdb.pack import PackFile, PackIndexFile
    PackFile(w.pack).checksum()
    i = PackIndexFile(w.pack[:-5] + ".idx")
    i.packfile_checksum(), i.indexfile_checksum(), i.offsets()


def chain(w):
    c = w.entity.collect_streams(w.delta)
    c[0].read(2)
    raises(w.entity.collect_streams, ABSENT)


def create(w):
    from gitdb.pack import PackEntity
    e = PackEntity.create((w.db.stream(sha(o)) for o in LOOSE + PACKED), w.top + "/out", 4)
    e.stream(sha(LOOSE[1])).read(3)
    for p in (e.pack().path(), e.index().path()):
        os.unlink(p)


def create_failing(w):
    from gitdb.pack import PackEntity

    def objs(exc):
        yield w.db.stream(sha(LOOSE[1]))
        if exc:
            raise OSError("failing")
    raises(PackEntity.create, objs(True), w.top + "/out", 2)
    raises(PackEntity.create, objs(False), w.top + "/out", 2)
    raises(lambda: PackEntity.create([w.db.stream(w.short)], w.top + "/out"))
    raises(lambda: PackEntity.create([w.db.stream(sha(LOOSE[0]))], w.top + "/missing"))


def write_pack(w):
    from gitdb.pack import PackEntity
    PackEntity.write_pack([w.db.stream(sha(LOOSE[1]))], BytesIO().write, BytesIO().write)
    raises(lambda: PackEntity.write_pack([w.db.stream(sha(LOOSE[1]))], None))


def locked_read(w):
    from gitdb.util import LockedFD
    p = w.top + "/file"
    with open(p, "w") as f:
        f.write("content")
    for end in ("commit", "rollback"):
        l = LockedFD(p)
        l.open(stream=True).read(100)
        getattr(l, end)()
        getattr(l, end)()


def locked_write(w):
    from gitdb.util import LockedFD
    p = w.top + "/file"
    for end in ("commit", "rollback"):
        l = LockedFD(p)
        l.open(write=True, stream=True).write(b"new")
        getattr(l, end)()
    l = LockedFD(p)
    os.write(l.open(write=True), b"x")
    l.commit()


def locked_dropped(w):
    from gitdb.util import LockedFD
    l = LockedFD(w.top + "/file")
    l.open(write=True, stream=True).write(b"new")
    del l
    m = LockedFD(w.top + "/file")
    m.open(write=True)
    m = None
    LockedFD(w.top + "/file")


def locked_failing(w):
    from gitdb.util import LockedFD
    raises(LockedFD(w.top + "/nothing").open)
    raises(LockedFD(w.top + "/no/file").open, True)
    l = LockedFD(w.top + "/file")
    l.open(write=True)
    raises(LockedFD(w.top + "/file").open, True)
    raises(LockedFD(w.top + "/file").open)
    raises(l.open)
    l.rollback()


def contents(w):
    from gitdb.util import file_contents_ro, file_contents_ro_filepath
    for stream, mm in product((False, True), repeat=2):
        file_contents_ro_filepath(w.pack, stream=stream, allow_mmap=mm)
        fd = os.open(w.pack, os.O_RDONLY)
        file_contents_ro(fd, stream=stream, allow_mmap=mm)
        os.close(fd)
    raises(file_contents_ro_filepath, w.top + "/nothing")


def readers(w):
    """Streams made by hand"""
    from gitdb.stream import DecompressMemMapReader, FDCompressedSha1Writer, FDStream
    from gitdb.util import file_contents_ro_filepath
    p = os.path.join(w.root, loose_path(sha(LOOSE[1])))
    for close in (True, False):
        t, n, s = DecompressMemMapReader.new(file_contents_ro_filepath(p), close_on_deletion=close)
        s.read(3)
        if close:
            s.close()
    q = w.top + "/written"
    f = FDCompressedSha1Writer(os.open(q, os.O_WRONLY | os.O_CREAT, 0o600))
    f.write(b"abc")
    f.close()
    s = FDStream(os.open(q, os.O_RDONLY))
    s.read(2)
    s.close()
    os.unlink(q)


def collect(w):
    release_maps()


OPS = [queries, absent, info, read_to_end, read_some, open_only, rewind, hold_loose, hold_packed, hold_delta, release, finish, bad_loose, empty_loose, short_loose, bad_packed,
       abbreviation, ambiguous, enumerate_all, enumerate_part, store, store_known, store_failing, store_encoded, store_encoded_failing, store_blocked, redirect, memory,
       refresh, come_and_go, broken_pack, fresh_handles, fresh_entity, closing, closed, walk, verify, checksums, chain, create, create_failing, write_pack,
       locked_read, locked_write, locked_dropped, locked_failing, contents, readers, collect]
CORE = [absent, info, read_some, rewind, hold_loose, hold_packed, hold_delta, release, bad_loose, bad_packed, short_loose, enumerate_part, store, store_failing, store_blocked,
        refresh, come_and_go, broken_pack, fresh_handles, fresh_entity, closing, verify, create, create_failing, locked_failing, collect]


def is_pack(p):
    return p.replace(" (deleted)", "").endswith((".pack", ".idx"))


def state(w, total0, what, held=0):
    """What is open, checked against what may be"""
    fds, maps, total = usage(w.top)
    loose = sum(n for p, n in fds.items() if not is_pack(p))
    expect(loose <= held, "%s: open files although only %d streams are held: %s", what, held, [p[len(w.top):] for p in fds if not is_pack(p)])
    lm = [p for p in maps if not is_pack(p)]
    expect(sum(maps[p] for p in lm) <= held, "%s: mappings although only %d streams are held: %s", what, held, [p[len(w.top):] for p in lm])
    for kind, d in (("descriptors", fds), ("mappings", maps)):
        for p, n in d.items():
            # a file which is not there any more may be kept by smmap until collected
            expect(n <= 2 + held, "%s: %d %s of %s", what, n, kind, p[len(w.top):])
    expect_eq(total - sum(fds.values()), total0, what + ": descriptors of other files")
    return sum(fds.values()), sum(maps.values())


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.w = None
        self.n = 0

    def world(self):
        # worlds can be shared by histories, as everything has to be given back; a failing one does not spoil the next
        if self.w is None or self.n % 20 == 0:
            self.retire()
            self.total0 = usage(self.ctx.scratch)[2]
            self.w = World(self.ctx)
            gc.collect()
            for op in OPS:              # whatever is only initialized once
                op(self.w)
                del self.w.held[:]
        self.n += 1
        return self.w

    def retire(self):
        w, self.w = self.w, None
        if w is None:
            return
        top = w.top
        w.db = w.ldb = w.pdb = w.entity = None
        del w.held[:]
        gc.collect()
        release_maps()
        fds, maps, total = usage(top)
        expect(not fds and not maps, "open although nobody uses it any more: %s", sorted({p[len(top):] for p in list(fds) + list(maps)}))
        expect_eq(total, self.total0, "number of descriptors in the end")
        shutil.rmtree(top)

    def check(self, hist):
        try:
            w = self.world()
            before = sorted(os.listdir(w.root) + os.listdir(w.root + "/pack") + os.listdir(w.top + "/out") + [p for p in os.listdir(w.top) if p != "file"])
            seen = array("q", bytes(8 * 5 * REPEAT))        # of constant size, as it is part of what is measured
            for rep in range(REPEAT):
                for op in hist:
                    op(w)
                state(w, self.total0, "after %s, repetition %d, streams held" % (hist[-1].__name__, rep), len(w.held))
                del w.held[:]
                gc.collect()
                u = state(w, self.total0, "repetition %d" % rep)
                seen[5 * rep:5 * rep + 5] = array("q", u + memory_use())
            for i, kind in enumerate(("descriptors", "mappings", "objects in memory", "elements of containers", "bytes in memory")):
                got = list(seen[i::5])
                if i < 2:
                    expect(got[-1] <= got[1], "number of %s grows when repeated: %s", kind, got)
                else:
                    # growing each time, that is
                    expect(any(b - a <= SLACK[i] for a, b in zip(got[2:], got[3:])), "number of %s grows when repeated: %s", kind, got)
            if any(op in (come_and_go, broken_pack) for op in hist):
                release_maps()
                fds, maps, _ = usage(w.top)
                gone = [p[len(w.top):] for p in list(fds) + list(maps) if p.endswith("(deleted)")]
                expect(not gone, "packs which are not there any more are kept open: %s", gone)
            after = sorted(os.listdir(w.root) + os.listdir(w.root + "/pack") + os.listdir(w.top + "/out") + [p for p in os.listdir(w.top) if p != "file"])
            left = [a for a in after if a not in before and not (len(a) == 2)]
            expect_eq(left, [], "files left behind")
        except BaseException as e:
            # it must not affect the others
            self.w = w = None
            traceback.clear_frames(e.__traceback__)
            gc.collect()
            release_maps()
            raise
        self.ctx.distinct("nontrivial", tuple(op.__name__ for op in hist))
        self.ctx.count("operations", len(hist) * REPEAT)

    def __call__(self, hist):
        self.ctx.run(",".join(op.__name__ for op in hist), self.check, hist)


def histories(ctx, first, depth, ops):
    """All histories of this length which begin so"""
    sys.unraisablehook = lambda u: None
    run = Run(ctx)
    names = {op.__name__: op for op in OPS}
    for rest in product(ops, repeat=depth - 1):
        run((names[first],) + tuple(names[r] for r in rest))
    ctx.run("retire", run.retire)
    ctx.sample({"first": first, "depth": depth, "alphabet": list(ops)}, 1)


def units(tier, seed):
    every, core = [o.__name__ for o in OPS], [o.__name__ for o in CORE]
    out = [("d2-" + o, histories, dict(first=o, depth=2, ops=every)) for o in every]
    if tier == "quick":
        out += [("d3-" + o, histories, dict(first=o, depth=3, ops=core)) for o in core]
    else:
        out += [("d3-" + o, histories, dict(first=o, depth=3, ops=every)) for o in every]
    return out
