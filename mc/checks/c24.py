"""C24: queries do not change anything"""
import gc
import os
import sys
from itertools import product

from mc import fsx, gitref as g, world
from mc.core import HarnessError, Violation, expect, expect_eq
from mc.dbcheck import check_db
from mc.fixtures import content
from mc.inputs import loose_path
from mc.world import Dir, NAMES

PROPERTY = "C24"
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of all short histories of queries on the real code with every file system call recorded; no call may modify anything, "
             "and the same histories are executed by a user who may not write")
LEVEL_NOTE = "All histories of two (thorough: three) queries over the alphabet, failing ones included, for five kinds of handles."
RULE = ("During a history, no call which creates, writes, renames, removes, links, truncates or changes modes or times is made below the directory (recorded by the file system interposer); afterwards the tree is the same in contents, modes, "
        "modification times and inodes. The names handed in are the same. Executed by an unprivileged user on files of somebody else, which cannot be written nor opened without updating access times, all answers are the same. "
        "Non-trivial: distinct (handle, history).")
BOUNDS = {"quick": "28 queries, histories of 2, for two kinds of 3", "thorough": "histories of 3"}
NEEDS_FSX = True
CASE_TIMEOUT = 30

BAD, ABSENT, SHORT, EMPTY, FOLDER = b"\x11" * 20, b"\x88" * 20, b"\x12" * 20, b"\x13" * 20, b"\x14" * 20
MUTATING = fsx.MUTATING & ~fsx.mask("close_w sync")


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in [""] + files:
            p = os.path.join(d, n) if n else d
            st = os.lstat(p)
            out[p] = (st.st_mode, st.st_mtime_ns, st.st_ino, st.st_size, st.st_uid)
            if n:
                with open(p, "rb") as f:
                    out[p] += (f.read(),)
    return out


def build(base):
    d = Dir(base + "/objects").create()
    alt = Dir(base + "/alt/objects").create()
    d.add_pack("p0", (0, 1, 2), "ofs")
    d.add_pack("p1", (1, 3), "ref", 1)
    d.add_loose(4)
    d.add_loose(2)
    alt.add_loose(3)
    alt.add_pack("a", (2,), "full")
    d.set_alternates([(alt.path, alt), (base + "/missing", None)])
    for n, raw in ((BAD, b"no zlib data"), (SHORT, g.Z(1)(g.canonical(b"blob", content("rand", 5000)))[:2000]), (EMPTY, b"")):
        p = os.path.join(d.path, loose_path(n))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(raw)
    # a directory in place of an object
    os.makedirs(os.path.join(d.path, loose_path(FOLDER)))
    # leftovers of somebody else, which are not ours to remove
    for n in ("objabcdefg", "tmp_obj_a", "pack/tmp_pack_1", "pack/tmp_idx_1", "pack/packxyz", "pack/indexxyz", "pack/pack-%s.pack" % ("d" * 40), "pack/pack-%s.idx.lock" % ("e" * 40), "pack/pack-%s.keep" % ("d" * 40), "pack/pack-%s.idx" % ("c" * 40),
              "info/packs", "info/alternates.lock", "objects.lock", "12/tmp_obj_b", "ef/empty"):
        for old in (False, True):
            q = os.path.join(d.path, n.replace("d" * 40, "b" * 40).replace("e" * 40, "f" * 40).replace("c" * 40, "a" * 40) if old else n) + ("" if "pack-" in n or ".lock" in n or not old else "2")
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as f:
                f.write("leftover" if "empty" not in n else "")
            if old:
                os.utime(q, (10 ** 9, 10 ** 9))
    os.makedirs(os.path.join(d.path, "fe"))         # an empty directory
    return d


# queries: they get the databases
def q(fn):
    return lambda w: fn(w)


def each(w, fn):
    for db in w["dbs"]:
        try:
            fn(db)
        except Exception as e:
            w["seen"].append(type(e).__name__)


def read(n):
    def run(w):
        def f(db):
            for i in range(5):
                try:
                    s = db.stream(NAMES[i])
                except Exception:
                    continue
                b = bytes(s.read(n)) if n else bytes(s.read())
                w["seen"].append(len(b))
        each(w, f)
    return run


def entities(w):
    from gitdb.db import PackedDB
    for db in w["dbs"]:
        for x in [db] + list(db.databases() if hasattr(db, "databases") else ()):
            if isinstance(x, PackedDB):
                for e in x.entities():
                    yield e


def verify(crc):
    def run(w):
        for e in entities(w):
            for i in range(e.index().size()):
                try:
                    w["seen"].append(e.is_valid_stream(e.index().sha(i), use_crc=crc))
                except Exception as x:
                    w["seen"].append(type(x).__name__)
    return run


def walk(w):
    for e in entities(w):
        w["seen"].append([(o.pack_offset, o.size) for o in e.pack().stream_iter()])
        w["seen"].append([(bytes(o.binsha), o.size) for o in e.info_iter()])
        next(iter(e.stream_iter())).read(2)


def tables(w):
    for e in entities(w):
        i = e.index()
        w["seen"].append((i.size(), i.version(), list(i.offsets()), bytes(i.packfile_checksum()), bytes(i.indexfile_checksum()), [bytes(i.sha(k)) for k in range(i.size())], e.pack().size(), e.pack().version(), bytes(e.pack().checksum())))
        for k in range(i.size()):
            i.entry(k), i.offset(k), i.crc(k)


def chains(w):
    for e in entities(w):
        for k in range(e.index().size()):
            w["seen"].append(len(e.collect_streams(e.index().sha(k))))
        try:
            e.collect_streams(ABSENT)
        except Exception as x:
            w["seen"].append(type(x).__name__)


def closing(w):
    for e in entities(w):
        p = type(e)(e.pack().path())
        p.info(p.index().sha(0))
        p.close()


def abbreviations(n):
    def run(w):
        def f(db):
            for s in NAMES + [ABSENT, BAD]:
                h = s.hex()[:n]
                try:
                    if hasattr(db, "partial_to_complete_sha_hex"):
                        w["seen"].append(bytes(db.partial_to_complete_sha_hex(h)))
                    else:
                        w["seen"].append(bytes(db.partial_to_complete_sha(bytes.fromhex(h + "0" * (n % 2)), n)))
                except Exception as x:
                    w["seen"].append(type(x).__name__)
        each(w, f)
    return run


def copy_out(w):
    """Reading in order to store somewhere else"""
    from gitdb.db import MemoryDB
    from gitdb.pack import PackEntity
    m = MemoryDB()
    out = []

    def f(db):
        for i in range(5):
            try:
                m.store_stream = m.store(stream_of(db, i))
            except Exception as x:
                w["seen"].append(type(x).__name__)
        PackEntity.write_pack([db.stream(n) for n in NAMES if db.has_object(n)], out.append, out.append)
    each(w, f)
    w["seen"].append(sum(map(len, out)))
    w["seen"].append(sorted(bytes(s) for s in m.sha_iter()))


def stream_of(db, i):
    from gitdb import IStream
    s = db.stream(NAMES[i])
    return IStream(s.type, s.size, s)


def hash_only(w):
    """Storing into a stream does not touch the database"""
    from io import BytesIO
    from gitdb import IStream
    from gitdb.stream import Sha1Writer, ZippedStoreShaWriter

    def f(db):
        for s in (Sha1Writer(), ZippedStoreShaWriter()):
            old = db.set_ostream(s)
            try:
                w["seen"].append(bytes(db.store(IStream(b"blob", 3, BytesIO(b"new"))).binsha))
            finally:
                db.set_ostream(old)
    each(w, f)


def names_of(fn):
    """With all names"""
    def run(w):
        def f(db):
            for n in NAMES + [ABSENT, BAD, SHORT, EMPTY, FOLDER]:
                try:
                    r = fn(db, n)
                    w["seen"].append(r if isinstance(r, bool) else (bytes(r.type), r.size))
                except Exception as x:
                    w["seen"].append(type(x).__name__)
        each(w, f)
    return run


def half_iter(db):
    it = iter(db.sha_iter())
    next(it)


def descr(w):
    def f(db):
        w["seen"].append((str(type(db)), db.root_path() if hasattr(db, "root_path") else None))
        repr(db), hash(db), db == db
        if hasattr(db, "databases"):
            w["seen"].append(len(db.databases()))
    each(w, f)


OPS = {
    "has": names_of(lambda db, n: db.has_object(n)), "in": names_of(lambda db, n: n in db), "info": names_of(lambda db, n: db.info(n)), "stream": names_of(lambda db, n: db.stream(n)),
    "read": read(0), "read1": read(1), "read5000": read(5000),
    "short": lambda w: each(w, lambda db: db.stream(SHORT).read()), "bad": lambda w: each(w, lambda db: db.stream(BAD).read()),
    "rewind": lambda w: each(w, lambda db: [db.stream(NAMES[2]).stream.seek(0)]),
    "iter": lambda w: each(w, lambda db: w["seen"].append(sorted(bytes(n) for n in db.sha_iter()))), "half": lambda w: each(w, half_iter),
    "size": lambda w: each(w, lambda db: w["seen"].append(db.size())),
    "update": lambda w: each(w, lambda db: db.update_cache()), "force": lambda w: each(w, lambda db: db.update_cache(force=True)),
    "abbr4": abbreviations(4), "abbr39": abbreviations(39), "abbr40": abbreviations(40),
    "verify": verify(False), "crc": verify(True), "walk": walk, "tables": tables, "chains": chains, "closing": closing,
    "copy": copy_out, "hash": hash_only, "descr": descr,
    "gc": lambda w: gc.collect(),
}
KINDS = ("git", "packed", "loose", "reference", "lgit")


def open_all(kind, d):
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    return {"git": lambda: [GitDB(d.path)], "packed": lambda: [PackedDB(d.path + "/pack")], "loose": lambda: [LooseObjectDB(d.path)],
            "reference": lambda: [ReferenceDB(d.path + "/info/alternates")], "lgit": lambda: [LooseObjectDB(d.path), GitDB(d.path)]}[kind]()


def history(d, kind, ops):
    w = {"dbs": open_all(kind, d), "seen": []}
    for o in ops:
        OPS[o](w)
    return w["seen"]


def histories(ctx, kind, first, depth):
    base = ctx.fresh_dir("q")
    os.chmod(base, 0o755)
    d = build(base)
    before = snapshot(base)
    args = [bytes(n) for n in NAMES]

    def check(ops):
        fsx.new(base)
        fsx.arm(fsx.LOG, MUTATING)
        try:
            history(d, kind, ops)
            gc.collect()
        finally:
            fsx.disarm()
        log = fsx.log()
        expect(not log, "a query modifies: %s", [str(p) for p in log][:5])
        if snapshot(base) != before:
            now = snapshot(base)
            raise Violation("changed: %s" % sorted(p[len(base):] for p in set(before) | set(now) if before.get(p) != now.get(p)))
        expect_eq([bytes(n) for n in NAMES], args, "names handed in")
        ctx.distinct("nontrivial", (kind, ops))
        ctx.count("queries", len(ops))
    for rest in product(OPS, repeat=depth - 1):
        ctx.run("%s/%s" % (kind, ",".join((first,) + rest)), check, (first,) + rest)
    ctx.sample({"kind": kind, "first": first, "depth": depth, "alphabet": list(OPS)}, 1)


def foreign(ctx, kind):
    """By a user who owns nothing and may not write"""
    base = ctx.fresh_dir("f")
    d = build(base)
    for p, dirs, files in os.walk(base):
        os.chmod(p, 0o555)
        for f in files:
            os.chmod(os.path.join(p, f), 0o444)
    # it has to be possible to get there
    p = ctx.scratch
    while p not in ("/", "/dev", "/dev/shm", "/tmp"):
        os.chmod(p, os.stat(p).st_mode | 0o055)
        p = os.path.dirname(p)
    ops = list(OPS)
    hist = [(o,) for o in ops] + [(a, b) for a in ops for b in ops]
    want = {h: history(d, kind, h) for h in hist}
    before = snapshot(base)
    groups = os.getgroups()
    if os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setegid(65534)
            os.seteuid(65534)
        except OSError:
            os.setegid(0)
            os.setgroups(groups)
            ctx.count("not_unprivileged")
            return
    try:
        foreign_cases(ctx, kind, base, d, hist, want, before)
    finally:
        if os.getuid() == 0:
            os.seteuid(0)
            os.setegid(0)
            os.setgroups(groups)


def foreign_cases(ctx, kind, base, d, hist, want, before):
    try:
        open(base + "/objects/x", "w")
    except OSError:
        pass
    else:
        raise HarnessError("it can be written")

    def check(h):
        expect_eq(history(d, kind, h), want[h], "answers to somebody else")
        ctx.count("foreign_queries", len(h))
    for h in hist:
        ctx.run("foreign/%s/%s" % (kind, ",".join(h)), check, h)
    now = snapshot(base)
    ctx.run("foreign/%s/after" % kind, lambda: expect(now == before, "something has changed"))
    from gitdb.db import GitDB

    def whole():
        db = GitDB(d.path)
        try:
            db.stream(NAMES[4]).read()
            ok = {n: world.known(n) for n in d.visible()}
            for n, (t, c) in ok.items():
                expect_eq((bytes(db.info(n).type), bytes(db.stream(n).read())), (t, c), "object")
        finally:
            del db
    ctx.run("foreign/%s/whole" % kind, whole)


def units(tier, seed):
    out = []
    for kind in KINDS:
        out.append(("foreign-" + kind, foreign, dict(kind=kind)))
        for o in OPS:
            out.append(("%s-%s" % (kind, o), histories, dict(kind=kind, first=o, depth=2)))
            if tier != "quick" or kind in ("git", "packed"):
                out.append(("%s-%s-3" % (kind, o), histories, dict(kind=kind, first=o, depth=3)))
    return out
