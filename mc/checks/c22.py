"""C22: damage stays contained"""
import os
import resource

from mc import gitref as g
from mc.core import expect, expect_eq, short
from mc.checks.c09 import layouts, build
from mc.dbcheck import release_maps
from mc.fixtures import content, ZS
from mc.inputs import loose_path

PROPERTY = "C22"
LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive enumeration of damages (every bit, bytes replaced, every truncation, removed and inserted bytes, wiped ranges) of object files, packs and "
             "indices; every way of reading executed on the real code, undamaged objects compared with a reference decoder")
LEVEL_NOTE = ("Every damage of the listed kinds at every position of small files. What is answered about a damaged object is not judged, except for its amount: "
              "that is the subject of C04 and C09. Damage to the header of a pack may make the pack unusable.")
RULE = ("For each file and each damage: all ways of reading the damaged objects end, with an answer of at most the announced size or an exception; "
        "before and afterwards, all objects whose bytes (and bases) are unharmed are found and read exactly through the same handle. "
        "Non-trivial: distinct (layout, damage) which harm at least one object.")
BOUNDS = {"quick": "10 pack layouts: all bit flips, bytes 0/255, all truncations, a byte removed or inserted anywhere; loose objects: 6 encodings, the same; "
                   "indices v1/v2: all bytes 0/1/127/128/255, all truncations",
          "thorough": "as quick with all byte substitutions, and all pairs of damages 1..4 bytes apart"}
CASE_TIMEOUT = 20
MEM_LIMIT = 6 << 30
RSS_LIMIT = 400 << 10       # KiB, above what there was


def drain(stream, size, what):
    """Read in pieces: never more than asked for, nor more than announced; always ends"""
    total, n = 0, 0
    while True:
        try:
            b = stream.read(7)
        except Exception:
            return
        if not b:
            break
        expect(len(b) <= 7, "%s: read(7) returned %d bytes", what, len(b))
        total += len(b)
        n += 1
        if isinstance(size, int):
            expect(total <= size, "%s: more than the announced %d bytes", what, size)
        if n > 2000:        # claims to be huge, which it may well be
            break


def attempt(fn):
    try:
        return fn()
    except Exception:
        return None


def poke(entity, name, index):
    """All ways to get at an object which may be damaged"""
    what = "object " + name.hex()[:8]
    attempt(lambda: entity.info(name))
    for get in (lambda: entity.stream(name), lambda: entity.stream_at_index(index)):
        s = attempt(get)
        if s is not None:
            size = attempt(lambda: s.size)
            b = attempt(lambda: bytes(s.read()))
            if b is not None and isinstance(size, int):
                expect(len(b) <= size, "%s: read() delivers %d bytes of an object of %d", what, len(b), size)
            attempt(lambda: s.stream.seek(0))
            drain(s, size, what)
            attempt(lambda: s.read(1))
    if entity.index().version() == 2:
        attempt(lambda: entity.is_valid_stream(name, use_crc=True))
    attempt(lambda: entity.is_valid_stream(name))
    attempt(lambda: entity.collect_streams(name))
    attempt(lambda: entity.info_at_index(index))


def exact(entity, e, index, what):
    """An object which is not damaged"""
    expect_eq(entity.index().sha_to_index(e.name), index, what + ": position")
    i = entity.info(e.name)
    expect_eq((bytes(i.type), i.size), (e.typ, len(e.result)), what + ": info")
    s = entity.stream(e.name)
    expect_eq((bytes(s.type), s.size, bytes(s.read())), (e.typ, len(e.result), e.result), what + ": stream")


def memory():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss


def walk(path, limit, ents, first_bad):
    """Walking ends, and is right up to the damage (the last 20 bytes of a file are taken for the checksum)"""
    from gitdb.pack import PackFile
    n = 0
    good = [e for e in ents if e.end <= first_bad and e.offset < limit - 20]
    try:
        for o in PackFile(path).stream_iter():
            if n < len(good):
                e = good[n]
                expect_eq((o.pack_offset, o.size), (e.offset, len(e.data)), "walk, entry %d" % n)
                expect_eq(bytes(o.read()), bytes(e.data), "walk, data of entry %d" % n)
            n += 1
            expect(n <= limit, "the walk does not end")
    except Exception as x:
        from mc.core import Violation
        if isinstance(x, Violation):
            raise
    expect(n >= len(good), "the walk ends after %d of %d entries before the damage", n, len(good))


class PackRun:
    """Cases: damaged packs"""

    def __init__(self, ctx, label, ents, version=2):
        self.ctx, self.label, self.ents, self.n = ctx, label, ents, 0
        self.data, self.items = build(ents)
        self.version = version
        self.order = {n: i for i, n in enumerate(sorted(e.name for e in ents))}
        self.idx = g.build_idx(self.items, self.data[-20:], version)
        self.d = ctx.fresh_dir()
        self.base = None

    def affected(self, lo, hi, shift):
        """:param lo, hi: range of the damage in the intact file
        :param shift: everything behind it is elsewhere"""
        bad = set()
        for e in self.ents:
            if e.offset < hi and e.end > lo or shift and e.end > lo:
                bad.add(e.name)
        # and what builds on them
        by_name = {e.name: e for e in self.ents}
        while True:
            more = {e.name for e in self.ents if e.kind != "full" and e.name not in bad and
                    (self.ents[e.base].name if isinstance(e.base, int) else e.base) in bad}
            if not more:
                return bad, by_name
            bad |= more

    def check(self, data, lo, hi, shift):
        from gitdb.pack import PackEntity
        self.n += 1
        stem = "%s/pack-%d" % (self.d, self.n)
        with open(stem + ".pack", "wb") as f:
            f.write(data)
        with open(stem + ".idx", "wb") as f:
            f.write(self.idx)
        bad, by_name = self.affected(lo, hi, shift)
        before = memory()
        entity = PackEntity(stem + ".pack")
        good = [e for e in self.ents if e.name not in bad]
        for e in good[:1]:
            exact(entity, e, self.order[e.name], "before, object at %d" % e.offset)
        for name in sorted(bad):
            poke(entity, name, self.order[name])
        for e in good:
            exact(entity, e, self.order[e.name], "after, object at %d" % e.offset)
        if bad:
            poke(entity, min(bad), self.order[min(bad)])
        walk(stem + ".pack", len(data), self.ents, lo)
        grown = memory() - before
        expect(grown < RSS_LIMIT, "reading took %d KiB of memory", grown)
        os.unlink(stem + ".pack")
        os.unlink(stem + ".idx")
        if self.n % 50 == 0:
            release_maps()
        if bad:
            self.ctx.distinct("nontrivial", (self.label, self.version, self.n))

    def __call__(self, cid, data, lo, hi, shift=False):
        self.ctx.run("%s/v%d/%s" % (self.label, self.version, cid), self.check, data, lo, hi, shift)


def damages(data, lo, hi, thorough):
    """(label, damaged data, first and last byte, whether what follows is moved)"""
    for p in range(lo, hi):
        c = data[p]
        vals = set(range(256)) if thorough else {c ^ 1 << b for b in range(8)} | {0, 255}
        for v in sorted(vals - {c}):
            yield "%d=%02x" % (p, v), data[:p] + bytes([v]) + data[p + 1:], p, p + 1, False
        yield "del%d" % p, data[:p] + data[p + 1:], p, p + 1, True
        yield "ins%d" % p, data[:p] + b"\x91" + data[p:], p, p + 1, True
        yield "wipe%d" % p, data[:p] + bytes(min(16, hi - p)) + data[p + 16:] if p + 16 < hi else data[:p] + bytes(hi - p) + data[hi:], p, min(p + 16, hi), False
        if thorough:
            for d in range(1, 5):
                if p + d < hi:
                    for v in (0, 0x7f, 0x80, 0xff):
                        yield "%d+%d=%02x" % (p, d, v), data[:p] + bytes([v]) + data[p + 1:p + d] + bytes([v]) + data[p + d + 1:], p, p + d + 1, False


def packs(ctx, name, ents, part, parts, version, thorough):
    run = PackRun(ctx, "pack/" + name, ents, version)
    n = 0
    for label, data, lo, hi, shift in damages(run.data, 12, len(run.data) - 20, thorough):
        n += 1
        if n % parts == part:
            run(label, data, lo, hi, shift)
    if part == 0:
        for k in range(12, len(run.data)):
            run("cut%d" % k, run.data[:k], k, len(run.data), True)
            run("wiped%d" % k, run.data[:k] + bytes(len(run.data) - k), k, len(run.data), False)
        for k in (1, 20, 4096, 70000):
            run("tail%d" % k, run.data + b"\xa5" * k, len(run.data) - 20, len(run.data), False)
        ctx.sample({"layout": name, "bytes": len(run.data), "damage": label}, 1)


# ---------------------------------------------------------------- loose objects
LOOSE = [("stored", b"blob", b"the content of a damaged object", "l0"), ("l1", b"commit", b"the content of a damaged object " * 4, "l1"), ("empty", b"tree", b"", "l6"),
         ("two", b"blob", content("text", 300), "sync1k"), ("rand", b"tag", content("rand", 90), "l9"), ("w9", b"tree", content("text", 200), "w9")]
OTHERS = [(b"blob", b"another"), (b"commit", b"one more, which is packed"), (b"tag", b"")]


def loose(ctx, label, typ, data, zname, part, parts, thorough):
    from io import BytesIO
    from gitdb import IStream
    from gitdb.db import GitDB, LooseObjectDB
    root = ctx.fresh_dir() + "/objects"
    os.makedirs(root + "/pack")
    sha = g.obj_sha(typ, data)
    path = os.path.join(root, loose_path(sha))

    def put(p, raw):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.exists(p):
            os.unlink(p)
        with open(p, "wb") as f:
            f.write(raw)
    for o in OTHERS[:1] + OTHERS[2:]:
        put(os.path.join(root, loose_path(g.obj_sha(*o))), g.Z(1)(g.canonical(*o)))
    g.write_files(root + "/pack", *(lambda e: (g.build_pack(e), e))([g.E("full", *OTHERS[1])]))
    raw = ZS[zname](g.canonical(typ, data))

    def others(db, what, all_of_them):
        for o in OTHERS if all_of_them else OTHERS[:1]:
            s = g.obj_sha(*o)
            expect(db.has_object(s), "%s: another object is missing", what)
            i = db.info(s)
            expect_eq((bytes(i.type), i.size), (o[0], len(o[1])), what + ": info about another object")
            r = db.stream(s)
            expect_eq((bytes(r.type), r.size, bytes(r.read())), (o[0], len(o[1]), o[1]), what + ": another object")
            if hasattr(db, "partial_to_complete_sha_hex"):
                expect_eq(bytes(db.partial_to_complete_sha_hex(s.hex()[:12])), s, what + ": abbreviation of another object")
        names = {bytes(n) for n in db.sha_iter()}
        for o in OTHERS if all_of_them else OTHERS[:1]:
            expect(g.obj_sha(*o) in names, "%s: another object is not enumerated", what)

    def check(bad):
        before = memory()
        for cls in (LooseObjectDB, GitDB):
            db = cls(root)
            put(path, bad)
            others(db, "before", cls is GitDB)
            for _ in range(2):
                attempt(lambda: db.has_object(sha))
                i = attempt(lambda: db.info(sha))
                for o in (i, attempt(lambda: db.stream(sha))):
                    expect(o is None or not isinstance(o.size, int) or o.size >= 0, "an object of %s bytes", o and o.size)
                s = attempt(lambda: db.stream(sha))
                if s is not None:
                    b = attempt(lambda: bytes(s.read()))
                    if b is not None and isinstance(s.size, int):
                        expect(len(b) <= max(s.size, 0), "read() delivers %d bytes of an object of %d", len(b), s.size)
                    if attempt(lambda: s.stream.seek(0) or True):
                        drain(s, s.size if isinstance(s.size, int) else None, "damaged object")
                attempt(lambda: db.partial_to_complete_sha_hex(sha.hex()[:10]))
            others(db, "after", cls is GitDB)
            # it can be replaced
            os.unlink(path)
            r = db.store(IStream(typ, len(data), BytesIO(data)))
            expect_eq(bytes(r.binsha), sha, "name of the object which replaces the damaged one")
            s = db.stream(sha)
            expect_eq((bytes(s.type), s.size, bytes(s.read())), (typ, len(data), data), "object which replaces the damaged one")
        grown = memory() - before
        expect(grown < RSS_LIMIT, "reading took %d KiB of memory", grown)
        ctx.distinct("nontrivial", bad)

    n = 0
    for lab, bad, lo, hi, shift in damages(raw, 0, len(raw), thorough):
        n += 1
        if n % parts == part:
            ctx.run("loose/%s/%s" % (label, lab), check, bad)
    if part == 0:
        for k in range(len(raw)):
            ctx.run("loose/%s/cut%d" % (label, k), check, raw[:k])
        for k in (1, 100, 10000):
            ctx.run("loose/%s/tail%d" % (label, k), check, raw + b"\x33" * k)
        # headers which are none, in intact compressed data
        for h in (b"", b"\0", b" \0", b"blob\0", b"blob \0", b"blob x\0", b"blob -1\0", b"blob 99999999999999999999\0", b"blob 4294967296\0", b"blob 0\0", b"nothing 3\0",
                  b"blob  3\0", b"blob 3 \0", b"blob 3", b"b" * 9000, b"blob " + b"1" * 5000 + b"\0", b"blob 1000000000000\0"):
            ctx.run("loose/%s/head%r" % (label, h[:20]), check, ZS[zname](h + data))


# ---------------------------------------------------------------- indices
def indices(ctx, name, ents, version, part, parts, thorough):
    """Damaged indices: everything ends, and answers have the right shape"""
    from gitdb.pack import PackEntity, PackIndexFile
    data, items = build(ents)
    idx = g.build_idx(items, data[-20:], version)
    d = ctx.fresh_dir()
    names = [e.name for e in ents] + [b"\0" * 20, b"\xff" * 20, b"\x55" * 20]
    k = [0]

    def check(bad):
        k[0] += 1
        stem = "%s/pack-%d" % (d, k[0])
        with open(stem + ".pack", "wb") as f:
            f.write(data)
        with open(stem + ".idx", "wb") as f:
            f.write(bad)
        before = memory()
        index = PackIndexFile(stem + ".idx")
        size = attempt(index.size)
        entity = PackEntity(stem + ".pack")
        for n in names:
            i = attempt(lambda: index.sha_to_index(n))
            expect(i is None or isinstance(i, int) and i >= 0, "position %r", i)
            if i is not None:
                attempt(lambda: index.offset(i))
                attempt(lambda: index.entry(i))
                attempt(lambda: index.crc(i))
            attempt(lambda: index.partial_sha_to_index(n[:2], 4))
            attempt(lambda: index.partial_sha_to_index(n[:3], 5))
            attempt(lambda: entity.info(n))
            s = attempt(lambda: entity.stream(n))
            if s is not None:
                drain(s, attempt(lambda: s.size), "object")
            if size is not None and size < 1000:
                attempt(lambda: entity.is_valid_stream(n, use_crc=True))
        if size is not None and size < 1000:
            attempt(index.offsets)
            attempt(lambda: list(entity.info_iter()))
        attempt(index.packfile_checksum)
        grown = memory() - before
        expect(grown < RSS_LIMIT, "reading took %d KiB of memory", grown)
        os.unlink(stem + ".pack")
        os.unlink(stem + ".idx")
        if k[0] % 50 == 0:
            release_maps()
        ctx.distinct("nontrivial", bad)

    n = 0
    for p in range(len(idx)):
        # the fan-out table is mostly the same
        if not thorough and (8 if version == 2 else 0) <= p < (8 if version == 2 else 0) + 1024 and p // 4 % 16 not in (0, 15) and idx[p - 4:p] == idx[p:p + 4]:
            continue
        for v in sorted({0, 1, 0x7f, 0x80, 255} - {idx[p]}):
            n += 1
            if n % parts == part:
                ctx.run("idx/%s/v%d/%d=%02x" % (name, version, p, v), check, idx[:p] + bytes([v]) + idx[p + 1:])
    if part == 0:
        for c in range(1 if thorough else 1000, len(idx)):
            ctx.run("idx/%s/v%d/cut%d" % (name, version, c), check, idx[:c])
        for c in (0, 1, 3, 4, 7, 8, 9, 500):
            ctx.run("idx/%s/v%d/cut%d" % (name, version, c), check, idx[:c])


def units(tier, seed):
    thorough = tier != "quick"
    out = []
    for name, ents in layouts():
        if name == "types" and not thorough:
            continue
        for version in (2, 1) if thorough or name in ("chain", "two") else (2,):
            parts = 32 if thorough else 4
            for part in range(parts):
                out.append(("pack-%s-v%d-%d" % (name, version, part), packs, dict(name=name, ents=ents, part=part, parts=parts, version=version, thorough=thorough)))
    for label, typ, data, zname in LOOSE:
        parts = 16 if thorough else 4
        for part in range(parts):
            out.append(("loose-%s-%d" % (label, part), loose, dict(label=label, typ=typ, data=data, zname=zname, part=part, parts=parts, thorough=thorough)))
    for name, ents in layouts():
        if name in (("chain",) if not thorough else ("chain", "two", "single", "mixed")):
            for version in (1, 2):
                for part in range(4):
                    out.append(("idx-%s-v%d-%d" % (name, version, part), indices, dict(name=name, ents=ents, version=version, part=part, parts=4, thorough=thorough)))
    return out
