"""C05: pack index lookup is exact for every set of names"""
import itertools
import os
import struct

from mc import gitref as g
from mc.core import expect, expect_eq
from mc.deltas import uniq

PROPERTY = "C05"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of name sets and offset tables, every lookup on the real index reader compared with a sorted list"
LEVEL_NOTE = ("Every subset of an adversarial universe of names and every assignment of offset classes; other name sets are covered by "
              "dense and random-looking large indices only.")
RULE = ("Index files written by an independent encoder for every subset of an adversarial universe of names (fan-out edges, equal prefixes, "
        "all-zero and all-one names), every assignment of offset classes, and dense sets; every name of the universe, neighbours of present "
        "names, every position and table are queried, in several first-access orders. Non-trivial: distinct (names, offsets, version) with at "
        "least one name.")
BOUNDS = {"quick": "all subsets of 15 names x v1/v2; all assignments of 8 offset classes to 4 names; dense sets of 0..130 and 3000 names",
          "thorough": "all subsets of 15 names x v1/v2; all assignments of 8 offset classes to 4 names; dense sets of 0..400 and 70000 names"}


def n(first, fill, last=None):
    b = bytearray([first]) + bytearray([fill]) * 19
    if last is not None:
        b[19] = last
    return bytes(b)


UNIVERSE = [n(0, 0), n(0, 0, 1), n(0, 255), n(1, 0), n(1, 255), n(0x7f, 255), n(0x80, 0), n(0x80, 0, 0x80), n(0xfe, 255),
            n(0xff, 0), n(0xff, 255, 254), n(0xff, 255), n(0x42, 0x42), n(0x42, 0x42, 0x43), n(0x42, 0x42, 0x41)]
OFFSETS = [12, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, (1 << 63) - 1]


def neighbours(name):
    v = int.from_bytes(name, "big")
    for d in (-1, 1, -(1 << 80), 1 << 80, -(1 << 152), 1 << 152):
        if 0 <= v + d < 1 << 160:
            yield (v + d).to_bytes(20, "big")


def check_index(path, version, items, absent, pack_sha, data, first):
    """:param first: which query to make first on the fresh instance"""
    from gitdb.pack import PackIndexFile
    idx = PackIndexFile(path)
    items = sorted(items)
    if first == "offsets":
        expect_eq(list(idx.offsets()), [o for _, _, o in items], "offsets() first")
    elif first == "size":
        expect_eq(idx.size(), len(items), "size() first")
    elif first == "checksum":
        expect_eq(bytes(idx.packfile_checksum()), pack_sha, "packfile_checksum() first")
    elif first == "absent":
        expect_eq(idx.sha_to_index(absent[0]), None, "absent name first")
    elif first == "last" and items:
        expect_eq(idx.sha_to_index(items[-1][0]), len(items) - 1, "last name first")
    elif first == "offset" and items:
        expect_eq(idx.offset(0), items[0][2], "offset(0) first")
    elif first == "entry" and items:
        expect_eq(idx.entry(0)[0], items[0][2], "entry(0) first")
    elif first == "sha" and items:
        expect_eq(bytes(idx.sha(0)), items[0][0], "sha(0) first")
    elif first == "crc" and items:
        expect_eq(idx.crc(0), items[0][1] if version == 2 else 0, "crc(0) first")
    expect_eq(idx.version(), version, "version")
    expect_eq(idx.size(), len(items), "size")
    for i, (name, crc, ofs) in enumerate(items):
        expect_eq(idx.sha_to_index(name), i, "position of %s" % name.hex())
        expect_eq(bytes(idx.sha(i)), name, "sha(%d)" % i)
        expect_eq(idx.offset(i), ofs, "offset(%d)" % i)
        c = crc if version == 2 else 0
        expect_eq(idx.crc(i), c, "crc(%d)" % i)
        e = idx.entry(i)
        expect_eq((e[0], bytes(e[1]), e[2]), (ofs, name, c), "entry(%d)" % i)
    for name in absent:
        expect_eq(idx.sha_to_index(name), None, "position of absent %s" % name.hex())
    expect_eq(list(idx.offsets()), [o for _, _, o in items], "offsets()")
    expect_eq(bytes(idx.packfile_checksum()), pack_sha, "packfile_checksum")
    expect_eq(bytes(idx.indexfile_checksum()), data[-20:], "indexfile_checksum")
    expect_eq(idx.path(), path, "path")


FIRST = ["offsets", "size", "checksum", "absent", "last", "offset", "entry", "sha", "crc", None]


class Dir:
    def __init__(self, ctx):
        self.ctx, self.n, self.d = ctx, 0, ctx.fresh_dir()

    def one(self, cid, version, items, absent, first=None):
        self.n += 1
        pack_sha = uniq("pack", cid)
        data = g.build_idx(items, pack_sha, version)
        path = os.path.join(self.d, "pack-%d.idx" % self.n)
        with open(path, "wb") as f:
            f.write(data)
        self.ctx.run(cid, check_index, path, version, items, absent, pack_sha, data, first)
        if items:
            self.ctx.distinct("nontrivial", (version, tuple(sorted(items))))
        self.ctx.count("lookups", len(items) + len(absent))
        os.unlink(path)
        if self.n % 200 == 0:
            from gitdb.util import mman
            getattr(mman, "collect", int)()


def subsets(ctx, names, part, parts):
    d = Dir(ctx)
    extra = sorted({x for y in UNIVERSE for x in neighbours(y)} - set(UNIVERSE))
    for bits in range(part, 1 << len(names), parts):
        chosen = [x for i, x in enumerate(names) if bits >> i & 1]
        items = [(x, (0x9e3779b9 * (i + 1) + bits) & 0xffffffff, 12 + ((i * 7 + bits) % 13) * 100) for i, x in enumerate(chosen)]
        # the order in the pack is not the order of the names
        absent = [x for x in UNIVERSE if x not in chosen] + extra[bits % 5::5]
        for version in (1, 2):
            d.one("subset%x/v%d" % (bits, version), version, items, absent, FIRST[bits % len(FIRST)])
    ctx.sample({"names": [x.hex() for x in chosen], "version": version}, 1)


def offsets(ctx, count, part, parts):
    d = Dir(ctx)
    names = [n(0, 1), n(0x42, 0x42), n(0x42, 0x42, 0x43), n(0xff, 255)][:count]
    for i, combo in enumerate(itertools.product(OFFSETS, repeat=count)):
        if i % parts != part:
            continue
        items = [(x, 0xffffffff - j if j % 2 else j, o) for j, (x, o) in enumerate(zip(names, combo))]
        d.one("offsets/%s/v2" % "-".join("%x" % o for o in combo), 2, items, [n(0x42, 0x42, 0x40), n(0x43, 0)], FIRST[i % len(FIRST)])
        if max(combo) <= 0xffffffff:
            d.one("offsets/%s/v1" % "-".join("%x" % o for o in combo), 1, items, [n(0x42, 0x42, 0x40)], FIRST[i % len(FIRST)])
    ctx.sample({"offsets": list(combo)}, 1)


def dense(ctx, counts, kind):
    """Very many names: bisecting has to get everywhere"""
    d = Dir(ctx)
    for c in counts:
        if kind == "bucket":            # all in one fan-out bucket, differing in the last bytes
            names = [b"\x42" * 18 + struct.pack(">H", 2 * i + 1) for i in range(c)]
        elif kind == "spread":          # all over the place
            names = [uniq("spread", c, i) for i in range(c)]
        elif kind == "ends":            # first and last bucket only
            names = [(b"\x00" if i % 2 else b"\xff") + uniq("e", i)[1:] for i in range(c)]
        elif kind == "one":             # one name per bucket
            names = [bytes([i]) + uniq("o", i)[1:] for i in range(min(c, 256))]
        names = sorted(set(names))
        absent = [x for y in names for x in neighbours(y)]
        absent = sorted(set(absent) - set(names)) or [n(0, 0)]
        big = {i for i in range(len(names)) if i % 7 == 3}
        items = [(x, (i * 2654435761) & 0xffffffff, 12 + (i * 7919) % (len(names) + 1) * 64 + ((1 << 32) if i in big and kind == "spread" else 0))
                 for i, x in enumerate(names)]
        for version in (1, 2):
            if version == 1 and max([o for _, _, o in items] or [0]) > 0xffffffff:
                continue
            d.one("dense/%s/%d/v%d" % (kind, c, version), version, items, absent, FIRST[c % len(FIRST)])


def entity_iteration(ctx, version):
    """Positions at the level of the pack: name, offset and content belong together"""
    from gitdb.pack import PackEntity
    for count in (0, 1, 2, 3, 17, 300):
        ents = [g.E("full", b"blob", b"object %d" % (i * 31 % 1009), name=uniq("x", version, count, i)) for i in range(count)]
        data = g.build_pack_raw(ents)
        path = g.write_files(ctx.fresh_dir(), data, ents, version)

        def check():
            e = PackEntity(path)
            expect_eq(e.index().size(), count, "size")
            want = sorted((x.name, x.data, x.offset) for x in ents)
            expect_eq([(bytes(s.binsha), bytes(s.read())) for s in e.stream_iter()], [w[:2] for w in want], "stream_iter")
            expect_eq([(bytes(s.binsha), s.size) for s in e.info_iter()], [(w[0], len(w[1])) for w in want], "info_iter")
            for i, (name, content, ofs) in enumerate(want):
                expect_eq((e.index().offset(i), bytes(e.stream_at_index(i).read())), (ofs, content), "position %d" % i)
            expect_eq(bytes(e.index().packfile_checksum()), bytes(e.pack().checksum()), "checksums of index and pack")
            expect_eq(bytes(e.pack().checksum()), data[-20:], "pack checksum")
        ctx.run("entity/%d/v%d" % (count, version), check)


def units(tier, seed):
    quick = tier == "quick"
    out = []
    parts = 16 if quick else 64
    for part in range(parts):
        out.append(("subsets-%d" % part, subsets, dict(names=UNIVERSE, part=part, parts=parts)))
        out.append(("offsets-%d" % part, offsets, dict(count=4, part=part, parts=parts)))
    for kind in ("bucket", "spread", "ends", "one"):
        small = range(0, 131) if quick else range(0, 401)
        for k in range(4):
            out.append(("dense-%s-%d" % (kind, k), dense, dict(counts=[c for c in small if c % 4 == k], kind=kind)))
        out.append(("dense-%s-large" % kind, dense, dict(counts=[3000] if quick else [3000, 32000, 70000 if kind != "bucket" else 32767], kind=kind)))
    for version in (1, 2):
        out.append(("entity-v%d" % version, entity_iteration, dict(version=version)))
    return out
