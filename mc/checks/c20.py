"""C20: large objects are streamed with bounded memory and exact consumption"""
import gc
import hashlib
import itertools
import os
import tracemalloc
import zlib
from io import BytesIO

from mc import gitref as g
from mc.checks.c18 import Zeros
from mc.core import expect, expect_eq
from mc.dbcheck import release_maps, slurp
from mc.fixtures import content
from mc.inputs import loose_path

PROPERTY = "C20"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of operations x sizes x chunk sizes x behaviours of the source x sequences of reads, monitoring every request to the source, the peak of allocated memory and the pages touched"
LEVEL_NOTE = "Requests, positions and peaks are measured at every explored execution. Memory which is not allocated by Python (mappings, internals of zlib) is covered by counting touched pages of the files only."
RULE = ("Exact: every size x chunk size x pattern of short reads x trailing data, for every way to store. Bounded: every operation on objects of several sizes and compressibilities, with the peak of traced allocations and the largest request to the "
        "source bounded by a multiple of the chunk size, whatever the size. Pieces: every sequence of read sizes up to a depth; each read may allocate and touch only about what it was asked for. Non-trivial: distinct (operation, size, pattern).")
BOUNDS = {"quick": "sizes 0..40 and around multiples of the default chunk; 8 chunk sizes, 6 source patterns, 4 lengths of trailing data; objects up to 128 MiB, one of 4 GiB; 5^4 sequences of reads",
          "thorough": "sizes 0..130; objects up to 1 GiB, one of 9 GiB; 6^6 sequences of reads"}
CASE_TIMEOUT = 240
MEM_LIMIT = -(3 << 30)

MIB = 1 << 20
CHUNK = 4096000
LIMIT = 48 * MIB        # of the peak of any step; about 20 MiB are needed with chunks of this size
ASK = 3 * CHUNK

PATTERNS = {"full": (1 << 62,), "one": (1,), "two": (2,), "1-full": (1, 1 << 62), "full-1": (1 << 62, 1), "3-1-7": (3, 1, 7)}


class Source:
    """A stream with something behind the object. Returns less than asked for according to the pattern"""

    def __init__(self, data, pattern=PATTERNS["full"]):
        self.b = BytesIO(data)
        self.pattern = itertools.cycle(pattern)
        self.asked = []

    def read(self, n=-1):
        self.asked.append(n)
        if n is None or n < 0:
            return self.b.read()
        return self.b.read(min(n, next(self.pattern)))


# ------------------------------------------------------------------ exact consumption
def sinks():
    return ("loose", "git", "memory", "null", "zipped", "flex")


def store(ctx, kind, root, chunk, istream):
    """:return: (result of store, function returning the content as stored or None)"""
    from gitdb.base import IStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB
    from gitdb.stream import FlexibleSha1Writer, Sha1Writer, ZippedStoreShaWriter
    if kind == "memory":
        db = MemoryDB()
        for x in vars(db).values():
            if isinstance(x, LooseObjectDB) and chunk:
                x.stream_chunk_size = chunk
        r = db.store(istream)
        return r, lambda: bytes(db.stream(r.binsha).read())
    if kind == "git":
        db = GitDB(root)
        inner = [x for x in db.databases() if isinstance(x, LooseObjectDB)]
    else:
        db = LooseObjectDB(root)
        inner = [db]
    if chunk:
        for x in inner:
            x.stream_chunk_size = chunk
    out = []
    if kind in ("null", "zipped", "flex"):
        w = {"null": Sha1Writer, "zipped": ZippedStoreShaWriter, "flex": lambda: FlexibleSha1Writer(lambda b: out.append(bytes(b)))}[kind]()
        db.set_ostream(w)
    r = db.store(istream)
    if kind == "null":
        return r, None
    if kind == "zipped":
        w.close()
        return r, lambda: zlib.decompress(w.getvalue()).partition(b"\0")[2]
    if kind == "flex":
        return r, lambda: b"".join(out).partition(b"\0")[2]
    return r, lambda: g.parse_loose(slurp(os.path.join(root, loose_path(r.binsha))))[1]


def exact(ctx, kind, sizes, chunks, trails):
    from gitdb.base import IStream
    root = ctx.fresh_dir() + "/objects"
    os.makedirs(root)
    bulk = content("rand", max(sizes) + max(trails), 5)

    def run(size, chunk, pname, trail):
        src = Source(bulk[:size + trail], PATTERNS[pname])
        i = IStream(b"blob", size, src)
        r, back = store(ctx, kind, root, chunk, i)
        sha = g.obj_sha(b"blob", bulk[:size])
        expect_eq(bytes(r.binsha), sha, "name of the stored object")
        expect_eq(src.b.tell(), size, "position in the source of an object of %d bytes, %d follow" % (size, trail))
        expect_eq(src.b.read(), bulk[size:size + trail], "what follows the object")
        lim = chunk or ASK
        bad = [n for n in src.asked if n is None or n < 0 or n > lim]
        expect(not bad, "the source was asked for %s bytes at once, the chunk size is %d", bad[:3], lim)
        if back:
            expect_eq(back(), bulk[:size], "content as stored")
        if kind in ("loose", "git"):
            os.unlink(os.path.join(root, loose_path(sha)))
    for size in sizes:
        for chunk in chunks:
            for pname in PATTERNS:
                if size > 1000 and (pname in ("one", "two", "3-1-7") or chunk and chunk < 1000):
                    continue
                for trail in trails:
                    ctx.run("exact/%s/%d/%d/%s/%d" % (kind, size, chunk, pname, trail), run, size, chunk, pname, trail)
                    ctx.distinct("consumptions", (kind, size, chunk, pname, trail))
                    ctx.count("nontrivial", size > 0)


def raw(ctx, sizes, chunks):
    """Objects which are compressed already are copied as they are, in chunks"""
    from gitdb.base import IStream
    root = ctx.fresh_dir() + "/objects"
    os.makedirs(root)

    def run(kind, size, chunk, pname):
        data = content("rand", size, 6)
        comp = zlib.compress(g.canonical(b"blob", data), 1)
        sha = g.obj_sha(b"blob", data)
        src = Source(comp, PATTERNS[pname])
        r, back = store(ctx, kind, root, chunk, IStream(b"blob", size, src, sha))
        lim = chunk or ASK
        bad = [n for n in src.asked if n is None or n < 0 or n > lim]
        expect(not bad, "the source was asked for %s bytes at once, the chunk size is %d", bad[:3], lim)
        expect_eq(back(), data, "content as stored")
        if kind != "memory":
            p = os.path.join(root, loose_path(sha))
            expect_eq(slurp(p), comp, "file of the object")
            os.unlink(p)
    for kind in ("loose", "git", "memory"):
        for size in sizes:
            for chunk in chunks:
                for pname in PATTERNS:
                    ctx.run("raw/%s/%d/%d/%s" % (kind, size, chunk, pname), run, kind, size, chunk, pname)
                    ctx.distinct("consumptions", (kind, size, chunk, pname))
                    ctx.count("nontrivial")


# ------------------------------------------------------------------ bounded memory
class Gen:
    """A source which holds no more than a block itself"""

    def __init__(self, kind, size):
        self.kind, self.size, self.left, self.max = kind, size, size, 0
        self.block = block(kind)

    def read(self, n=-1):
        expect(n is not None and 0 <= n <= ASK, "the source was asked for %s bytes at once", n)
        self.max = max(self.max, n)
        at = (self.size - self.left) % len(self.block)
        n = min(n, self.left, len(self.block) - at)
        self.left -= n
        return self.block[at:at + n]


BLOCKS = {}


def block(kind):
    if kind not in BLOCKS:
        n = 2 * CHUNK + 12345
        if kind == "half":
            BLOCKS[kind] = content("zero", n // 2) + content("rand", n // 2, 8)
        else:
            BLOCKS[kind] = content(kind, n, 8)
    return BLOCKS[kind]


def gen_sha(kind, size):
    h = hashlib.sha1(b"blob %d\0" % size)
    s = Gen(kind, size)
    while s.left:
        h.update(s.read(CHUNK))
    return h.digest()


class Peak:
    """Monitors the peak of memory allocated within, beyond what was allocated before"""

    def __init__(self, what, limit):
        self.what, self.limit = what, limit

    def __enter__(self):
        gc.collect()
        tracemalloc.start(1)
        self.base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        return self

    def __exit__(self, t, v, tb):
        peak = tracemalloc.get_traced_memory()[1] - self.base
        tracemalloc.stop()
        if t is None:
            expect(peak <= self.limit, "%s allocates %d KiB, at most %d expected", self.what, peak >> 10, self.limit >> 10)


def touched(path):
    """:return: bytes of the file which are mapped and were accessed, None if it isn't mapped"""
    total, hit = None, False
    with open("/proc/self/smaps") as f:
        for line in f:
            w = line.split()
            if not w[0].endswith(":"):
                hit = len(w) > 5 and w[5] == path
            elif hit and w[0] == "Rss:":
                total = (total or 0) + int(w[1]) * 1024
    return total


def drain(s, want, piece=1 << 20):
    """Read a stream in pieces and compare it to a source"""
    while want.left:
        a = s.read(piece)
        expect(a, "stream ends %d bytes early", want.left)
        b = b""
        while len(b) < len(a):
            x = want.read(min(CHUNK, len(a) - len(b)))
            expect(x, "stream is too long")
            b = b + x if b else x
        if a != b:
            expect_eq(a, b, "content of the stream")
    expect_eq(s.read(piece), b"", "end of the stream")


def bounded(ctx, kind, size):
    from gitdb.base import IStream, OStream
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    from gitdb.pack import PackEntity, PackFile
    from gitdb.stream import FlexibleSha1Writer, Sha1Writer
    base = ctx.fresh_dir()
    root = base + "/objects"
    packs = root + "/pack"
    os.makedirs(packs)
    state = {}
    sha = gen_sha(kind, size)
    path = os.path.join(root, loose_path(sha))

    def step(name, fn):
        def run():
            with Peak(name, LIMIT):
                return fn()
        r = ctx.run("bounded/%s/%d/%s" % (kind, size, name), run)
        ctx.distinct("operations", (kind, size, name))
        ctx.count("nontrivial")
        return r

    def put(db):
        src = Gen(kind, size)
        i = db.store(IStream(b"blob", size, src))
        expect_eq(bytes(i.binsha), sha, "name of the object")
        expect_eq(src.left, 0, "what was left in the source")

    def redirect(w):
        db = LooseObjectDB(root)
        db.set_ostream(w)
        put(db)
    step("store-sha1", lambda: redirect(Sha1Writer()))
    step("store-flex", lambda: redirect(FlexibleSha1Writer(lambda b: None)))
    step("store-git", lambda: put(GitDB(root)))
    if ctx.only is None:
        expect(os.path.exists(path), "no file")
        os.unlink(path)
    step("store", lambda: put(LooseObjectDB(root)))
    if not os.path.exists(path):        # replay of a single step
        put(LooseObjectDB(root))
    db = LooseObjectDB(root)

    def raw_copy():
        d = base + "/copy"
        os.makedirs(d)
        with open(path, "rb") as f:
            LooseObjectDB(d).store(IStream(b"blob", size, f, sha))
        expect_eq(os.path.getsize(os.path.join(d, loose_path(sha))), os.path.getsize(path), "size of the copy")
        os.unlink(os.path.join(d, loose_path(sha)))
    step("raw-copy", raw_copy)

    def copy():
        d = base + "/copy2"
        os.makedirs(d)
        s = db.stream(sha)
        LooseObjectDB(d).store(IStream(s.type, s.size, s))
        expect_eq(os.path.getsize(os.path.join(d, loose_path(sha))), os.path.getsize(path), "size of the copy")
        os.unlink(os.path.join(d, loose_path(sha)))
    step("copy", copy)
    for cls in (LooseObjectDB, GitDB):
        def infos():
            i = cls(root).info(sha)
            expect_eq((bytes(i.type), i.size), (b"blob", size), "info")
            expect(cls(root).has_object(sha), "object missing")
        step("info-" + cls.__name__, infos)

    def light(mk, name):
        def run():
            with Peak(name, 2 * MIB):
                mk()
        ctx.run("light/%s/%d/%s" % (kind, size, name), run)
        ctx.count("nontrivial")
        ctx.distinct("operations", (kind, size, name))
    light(lambda: LooseObjectDB(root).info(sha), "info")
    light(lambda: LooseObjectDB(root).stream(sha), "open")
    light(lambda: GitDB(root).stream(sha), "open-git")
    light(lambda: LooseObjectDB(root).has_object(sha), "has")
    light(lambda: list(LooseObjectDB(root).sha_iter()), "iterate")
    for piece in (1 << 20, 65536):
        if piece == 1 << 20 or size < 40 * MIB:
            light_piece = (lambda: drain(db.stream(sha), Gen(kind, size), piece))
            step("read-%d" % piece, light_piece)

    # packs
    def write_pack():
        got = [0]

        def write(b):
            got[0] += len(b)
            expect(len(b) <= ASK, "%d bytes are written at once", len(b))
        PackEntity.write_pack([OStream(sha, b"blob", size, Gen(kind, size))], write, lambda b: None, 1)
        expect(got[0] > 30, "nothing was written")
    step("write-pack", write_pack)
    for level in (0, 1):
        step("write-pack-%d" % level, lambda: PackEntity.write_pack(iter([db.stream(sha)]), lambda b: None, lambda b: None, 1, zlib_compression=level))
    step("write-pack-noindex", lambda: PackEntity.write_pack(iter([db.stream(sha)]), lambda b: None, object_count=1))

    def create():
        state["pack"] = PackEntity.create([OStream(sha, b"blob", size, Gen(kind, size))], packs).pack().path()
    step("create", create)
    if "pack" not in state:
        create()
    p = state["pack"]
    os.unlink(path)
    step("crc", lambda: expect(PackEntity(p).is_valid_stream(sha, use_crc=True) is True, "crc is wrong"))
    step("verify", lambda: expect(PackEntity(p).is_valid_stream(sha) is True, "object is not valid"))
    step("walk", lambda: expect_eq([(s.pack_offset, s.size) for s in PackFile(p).stream_iter()], [(12, size)], "walk"))
    step("pack-read", lambda: drain(PackEntity(p).stream(sha), Gen(kind, size)))
    step("packeddb-read", lambda: drain(PackedDB(packs).stream(sha), Gen(kind, size)))
    step("git-read", lambda: drain(GitDB(root).stream(sha), Gen(kind, size)))

    def cbr():
        s = PackFile(p).stream(12)
        while s.read(CHUNK):
            pass
        expect_eq(s.stream.compressed_bytes_read(), os.path.getsize(p) - 12 - 20 - len(g.entry_header(3, size)), "compressed bytes read")
    step("compressed-bytes", cbr)
    light(lambda: PackEntity(p).info(sha), "pack-info")
    light(lambda: PackEntity(p).stream(sha), "pack-open")
    light(lambda: list(PackEntity(p).info_iter()), "pack-infos")
    light(lambda: list(PackEntity(p).stream_iter()), "pack-streams")
    light(lambda: PackEntity(p).collect_streams(sha), "pack-collect")
    light(lambda: (PackedDB(packs).info(sha), PackedDB(packs).has_object(sha), PackedDB(packs).partial_to_complete_sha(sha[:4], 8)), "packeddb-info")
    light(lambda: (list(PackedDB(packs).sha_iter()), PackedDB(packs).size()), "packeddb-iterate")
    light(lambda: GitDB(root).update_cache(True), "refresh")
    os.unlink(p)
    os.unlink(p[:-5] + ".idx")
    release_maps()


# ------------------------------------------------------------------ reading in pieces
def pieces(ctx, kind, where, sizes, depth):
    """Every sequence of read sizes, at the beginning of a large object"""
    from gitdb.base import OStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB, PackedDB
    from gitdb.pack import PackEntity, PackFile
    size = 24 * MIB
    base = ctx.fresh_dir()
    data = block(kind)
    total = (data * (size // len(data) + 1))[:size]
    sha = g.obj_sha(b"blob", total)
    os.makedirs(base + "/o/pack")
    level = 0 if kind == "rand" else 6
    if where in ("loose", "git", "memory"):
        p = os.path.join(base, "o", loose_path(sha))
        os.makedirs(os.path.dirname(p))
        with open(p, "wb") as f:
            f.write(zlib.compress(g.canonical(b"blob", total), level))
    else:
        p = g.write_pack(base + "/o/pack", [g.E("full", b"blob", total, z=g.Z(level))])
    total = total[:max(sizes) * (depth + 1)]
    mdb = MemoryDB()
    if where == "memory":
        from gitdb.base import IStream
        mdb.store(IStream(b"blob", size, BytesIO(slurp(p)), sha))

    def mk():
        if where == "loose":
            return LooseObjectDB(base + "/o").stream(sha)
        if where == "git":
            return GitDB(base + "/o").stream(sha)
        if where == "memory":
            return mdb.stream(sha)
        if where == "entity":
            return PackEntity(p).stream(sha)
        if where == "packed":
            return PackedDB(base + "/o/pack").stream(sha)
        return PackFile(p).stream(12)

    def run(seq):
        release_maps()
        with Peak("opening", MIB):
            s = mk()
        at = 0
        for k in seq:
            with Peak("reading %d bytes at %d" % (k, at), 8 * k + 256 * 1024):
                b = s.read(k)
            expect_eq(bytes(b), total[at:at + k], "content at %d" % at)
            del b
            at += k
        if where != "memory":
            n = touched(p)
            # neighbouring pages are mapped as well
            if n is not None:
                expect(n <= 2 * at + (1 << 20), "reading %d bytes accessed %d KiB of the file", at, n >> 10)
        del s
    for seq in itertools.product(sizes, repeat=depth):
        ctx.run("pieces/%s/%s/%s" % (where, kind, "-".join(map(str, seq))), run, seq)
        ctx.count("nontrivial")
        ctx.count("sequences")
    ctx.sample({"where": where, "kind": kind, "reads": list(seq)}, 1)


def giant(ctx, size):
    """An object whose size does not fit 32 bits"""
    from gitdb.base import IStream, OStream
    from gitdb.db import LooseObjectDB
    from gitdb.pack import PackEntity
    base = ctx.fresh_dir()
    mark = b"<mark>"

    def run():
        h = hashlib.sha1(b"blob %d\0" % size)
        s = Zeros(size, mark)
        while s.left:
            h.update(s.read(1 << 20))
        sha = h.digest()
        os.makedirs(base + "/o")
        db = LooseObjectDB(base + "/o")
        src = Zeros(size, mark)
        expect_eq(bytes(db.store(IStream(b"blob", size, src)).binsha), sha, "name of the object")
        expect_eq(src.left, 0, "bytes left in the source")
        i = db.info(sha)
        expect_eq((bytes(i.type), i.size), (b"blob", size), "info")

        def check(st, what):
            expect_eq(st.size, size, "size of the stream from " + what)
            left, zero = size, bytes(1 << 22)
            expect_eq(bytes(st.read(len(mark))), mark, "beginning")
            left -= len(mark)
            while left > 3 << 22:
                b = st.read(1 << 22)
                expect(b == zero, "content of the stream from %s at %d", what, size - left)
                left -= len(b)
            expect_eq(bytes(st.read()), bytes(left - len(mark)) + mark, "end")
        check(db.stream(sha), "a loose object")
        e = PackEntity.create([OStream(sha, b"blob", size, Zeros(size, mark)), OStream(g.obj_sha(b"blob", b"x"), b"blob", 1, BytesIO(b"x"))], base, 2)
        p = e.pack().path()
        expect_eq(e.info(sha).size, size, "size in the pack")
        walk = [(s.pack_offset, s.size) for s in e.pack().stream_iter()]
        expect_eq(walk, [(12, size), (e.index().offset(e.index().sha_to_index(g.obj_sha(b"blob", b"x"))), 1)], "walk")
        expect(e.is_valid_stream(sha) is True, "object is not valid")
        expect(e.is_valid_stream(sha, use_crc=True) is True, "crc is wrong")
    ctx.run("giant/%d" % size, run)
    ctx.count("nontrivial")


def units(tier, seed):
    quick = tier == "quick"
    out = [("giant", giant, dict(size=(4 << 30) + 17 if quick else (9 << 30) + 1))]
    for kind in ("zero", "rand", "half", "text"):
        for size in (10 * MIB, 128 * MIB) if quick else (4 * CHUNK - 1, 10 * MIB, 4 * CHUNK + 1, 128 * MIB, 1024 * MIB):
            out.append(("bounded-%s-%d" % (kind, size), bounded, dict(kind=kind, size=size)))
    sizes = list(range(0, 41)) if quick else list(range(0, 131))
    chunks = (1, 2, 3, 7, 8, 16, 33, 100) if quick else (1, 2, 3, 5, 7, 8, 16, 31, 32, 33, 64, 100, 200)
    for kind in sinks():
        for i in range(0, len(sizes), 11):
            out.append(("exact-%s-%d" % (kind, i), exact, dict(kind=kind, sizes=sizes[i:i + 11], chunks=chunks, trails=(0, 1, 5, 300))))
        out.append(("exact-%s-large" % kind, exact, dict(kind=kind, sizes=[CHUNK - 1, CHUNK, CHUNK + 1] + ([] if quick else [2 * CHUNK - 1, 2 * CHUNK, 2 * CHUNK + 1]), chunks=(0, 65536, 1000000), trails=(0, 1, 9000))))
    out.append(("raw", raw, dict(sizes=(0, 1, 5, 30, 300), chunks=chunks + (0,))))
    out.append(("raw-large", raw, dict(sizes=(40000,), chunks=(0, 1000, 8192))))
    reads = (1, 100, 4096, 65536, 1000000) if quick else (1, 7, 100, 4096, 65536, 1000000)
    for where in ("loose", "git", "memory", "entity", "packed", "file"):
        for kind in ("zero", "rand", "half", "text"):
            deep = where in ("loose", "entity")
            out.append(("pieces-%s-%s" % (where, kind), pieces, dict(kind=kind, where=where, sizes=reads, depth=(4 if deep else 3) if quick else (6 if deep else 4))))
    return out
