"""C18: objects are found and read wherever they lie in a large pack"""
import itertools
import os
import struct
import zlib

from mc import gitref as g
from mc.core import expect, expect_eq
from mc.dbcheck import release_maps, slurp
from mc.fixtures import content

PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of placements of entries in large sparse packs and of the order in which regions are accessed, against an independent reference of the formats"
LEVEL_NOTE = "Every split point of small entries at every boundary; every ordered triple of regions, within one pack and across packs which exceed the limit of mapped memory together; every assignment of offset classes to the entries of an index."
RULE = ("Place entries of every kind so that a boundary (multiples of 1 GiB, powers of two up to 2^33) falls before, behind or anywhere within them, with bases near and far, in front and behind; read, resolve and verify each through every "
        "interface. Access regions in every order, keeping streams of earlier ones open. Read and write indices with every combination of offset classes. Write a pack larger than 4 GiB and read it. "
        "Non-trivial: distinct placements, histories and offset combinations.")
BOUNDS = {"quick": "7 boundaries x 8 kinds x every split point (of entries up to 400 bytes) or 100 of them; ordered triples of 13 regions; triples of 9 places in 3 packs; 9^4 offset combinations",
          "thorough": "11 boundaries x 2 compression levels; 600 split points of larger entries; ordered quadruples of regions; 11^5 offset combinations"}
CASE_TIMEOUT = 150
MEM_LIMIT = -(2 << 30)

GIB = 1 << 30
STORED = g.Z(0)


class Big:
    """A sparse pack. Entries may be put anywhere, gaps are covered by entries of the index nobody asks for"""

    def __init__(self, ctx, end, version=2):
        self.dir = ctx.fresh_dir()
        self.stem = self.dir + "/pack-" + "e" * 40
        self.fd = os.open(self.stem + ".pack", os.O_RDWR | os.O_CREAT)
        self.end, self.version = end, version
        os.truncate(self.fd, end)
        self.objs = {}          # name: (type, content, offset, depth, chain of offsets)
        self.at = {}            # offset: (end, name, crc)

    def put(self, offset, kind, typ=None, data=b"", base=None, z=None):
        """:param base: name of the base of a delta. :return: name"""
        z = z or g.Z()
        if kind == "full":
            raw = g.entry_header(g.TYPE_IDS[typ], len(data)) + z(data)
            chain = [offset]
        else:
            b = self.objs[base]
            typ = b[0]
            raw = g.entry_header(g.OFS if kind == "ofs" else g.REF, len(data))
            raw += (g.ofs_varint(offset - b[2]) if kind == "ofs" else base) + z(data)
            data = g.delta_apply(b[1], data)
            chain = [offset] + b[3]
        name = g.obj_sha(typ, data)
        assert name not in self.objs
        self.objs[name] = (typ, data, offset, chain)
        self.at[offset] = (offset + len(raw), name, zlib.crc32(raw) & 0xffffffff)
        os.pwrite(self.fd, raw, offset)
        return name

    def end_of(self, name):
        return self.at[self.objs[name][2]][0]

    def finish(self):
        os.pwrite(self.fd, b"PACK" + struct.pack(">LL", 2, len(self.at)), 0)
        trailer = b"\x55" * 20
        os.pwrite(self.fd, trailer, self.end - 20)
        items = [(n, c, o) for o, (e, n, c) in self.at.items()]
        for o, (e, n, c) in sorted(self.at.items()):
            if e not in self.at and e < self.end - 20:
                items.append((g.sha1(b"gap%d" % o), 0, e))
        offs = sorted(self.at)
        for a, b in zip(offs, offs[1:]):
            assert self.at[a][0] <= b, "overlap"
        assert self.at[offs[-1]][0] <= self.end - 20
        with open(self.stem + ".idx", "wb") as f:
            f.write(g.build_idx(items, trailer, self.version))
        os.close(self.fd)

    def link(self, ctx):
        """:return: path of the same pack nobody has seen before"""
        d = ctx.fresh_dir()
        for e in (".idx", ".pack"):
            os.link(self.stem + e, d + "/pack-" + "e" * 40 + e)
        return d

    def remove(self, d=None):
        for e in (".idx", ".pack"):
            os.unlink((d or self.dir) + "/pack-" + "e" * 40 + e)


def delta_on(base, tag):
    """A delta taking parts of the base, whose result is unique"""
    n = len(base)
    return g.delta(n, n + len(tag), g.op_copy(n // 2, n - n // 2), g.op_insert(tag), *([g.op_copy(0, n // 2)] if n > 1 else []))


def check_object(big, ent, name, piece=4096, verify=True):
    typ, data, offset, chain = big.objs[name]
    what = "object at %d" % offset
    i = ent.info(name)
    expect_eq((bytes(i.binsha), bytes(i.type), i.size), (name, typ, len(data)), "info of the " + what)
    s = ent.stream(name)
    expect_eq((bytes(s.binsha), bytes(s.type), s.size), (name, typ, len(data)), "stream of the " + what)
    expect_eq(bytes(s.read()), data, "content of the " + what)
    s = ent.stream(name)
    out = b""
    for _ in range(len(data) // piece + 2):
        out += s.read(piece)
    expect_eq(out, data, "content of the %s, read in pieces" % what)
    if verify:
        expect(ent.is_valid_stream(name) is True, "is_valid_stream of the %s is not true", what)
        if big.version == 2:
            expect(ent.is_valid_stream(name, use_crc=True) is True, "crc of the %s is wrong", what)
    st = ent.collect_streams(name)
    expect_eq([x.pack_offset for x in st], chain, "offsets of the streams for the " + what)
    p = ent.pack().info(offset)
    expect_eq(p.pack_offset, offset, "offset of the packed info")
    idx = ent.index()
    n = idx.sha_to_index(name)
    expect_eq(idx.offset(n), offset, "offset in the index")
    expect_eq(tuple(idx.entry(n)), (offset, name, big.at[offset][2] if big.version == 2 else 0), "entry of the index")


KINDS = ("full", "rand", "large", "ofs-near", "ofs-far", "ref-far", "ref-behind", "chain")


def build(ctx, kind, boundary, k, version, zlevel):
    """The target is placed k bytes in front of the boundary. :return: Big, names to check, name of the target"""
    end = boundary + (3 << 20)
    big = Big(ctx, end, version)
    at = boundary - k
    z = g.Z(zlevel)
    low = big.put(12, "full", b"blob", content("text", 600))
    near = big.put(at - 70000, "full", b"blob", content("rand", 500, 7))
    rest = [low, near]
    if kind == "full":
        t = big.put(at, "full", b"tag", content("text", 40), z=z)
    elif kind == "rand":
        t = big.put(at, "full", b"blob", content("rand", 300, 3), z=z)
    elif kind == "large":
        t = big.put(at, "full", b"tree", content("rand", 30000, 3), z=z)
    elif kind == "ofs-near":
        t = big.put(at, "ofs", data=delta_on(big.objs[near][1], b"target"), base=near, z=z)
    elif kind == "ofs-far":
        t = big.put(at, "ofs", data=delta_on(big.objs[low][1], b"target"), base=low, z=z)
    elif kind == "ref-far":
        t = big.put(at, "ref", data=delta_on(big.objs[low][1], b"target"), base=low, z=z)
    elif kind == "ref-behind":
        b = big.put(boundary + (1 << 20), "full", b"commit", content("rand", 900, 9))
        t = big.put(at, "ref", data=delta_on(big.objs[b][1], b"target"), base=b, z=z)
        rest.append(b)
    else:
        # from low to high to low to the target, then on to another one behind it
        b = big.put(boundary + (1 << 20), "ofs", data=delta_on(big.objs[low][1], b"one"), base=low)
        c = big.put(5000, "ref", data=delta_on(big.objs[b][1], b"two"), base=b)
        t = big.put(at, "ofs", data=delta_on(big.objs[c][1], b"three"), base=c, z=z)
        rest += [big.put(boundary + (2 << 20), "ref", data=delta_on(big.objs[t][1], b"four"), base=t), b, c]
    # directly behind the target, and at the end of the pack
    n = big.put(big.end_of(t), "full", b"blob", b"the next one")
    last = content("rand", 200, 11)
    raw = len(g.entry_header(3, 200) + STORED(last))
    m = big.put(end - 20 - raw, "full", b"blob", last, z=STORED)
    big.finish()
    return big, [n, m] + rest, t


def placements(ctx, kind, boundary, version, ks, zlevel):
    from gitdb.db import PackedDB
    from gitdb.pack import PackEntity

    def run(k):
        release_maps()
        big, others, t = build(ctx, kind, boundary, k, version, zlevel)
        try:
            # the target first, or something else first
            for order in ([t], others[:1] + [t], [others[k % len(others)], t] + others, others[1:2] + others[2:3] + [t]):
                d = big.link(ctx)
                ent = PackEntity(d + "/pack-" + "e" * 40 + ".pack")
                for x in order:
                    check_object(big, ent, x, (4096, 7, 1, 100)[k % 4])
                del ent
                big.remove(d)
            d = big.link(ctx)
            db = PackedDB(d)
            for x in [t] + others:
                typ, data = big.objs[x][:2]
                expect(db.has_object(x), "database has no object at %d", big.objs[x][2])
                i = db.info(x)
                expect_eq((bytes(i.type), i.size), (typ, len(data)), "info by the database")
                expect_eq(bytes(db.stream(x).read()), data, "content by the database")
                expect_eq(bytes(db.partial_to_complete_sha(x[:8], 16)), x, "abbreviated name by the database")
            del db
            big.remove(d)
        finally:
            big.remove()
    for k in ks:
        ctx.run("place/%s/%d-%d/v%d/z%d" % (kind, boundary, k, version, zlevel), run, k)
        ctx.distinct("placements", (kind, boundary, k, version, zlevel))
        ctx.count("nontrivial")
    ctx.sample({"placement": [kind, boundary, k]}, 1)


def tails(ctx, boundary, ks):
    """Walk the entries at the end of the pack, from there on"""
    from gitdb.pack import PackEntity, PackFile

    def run(k):
        release_maps()
        big = Big(ctx, boundary + (2 << 20))
        names = []
        at = first = boundary - k
        for i, (typ, data, z) in enumerate(((b"blob", content("text", 30), 6), (b"blob", content("rand", 9000, 5), 0), (b"tag", b"", 6), (b"tree", content("rand", 70000, 6), 1), (b"commit", b"end", 9))):
            names.append(big.put(at, "full", typ, data, z=g.Z(z)))
            at = big.end_of(names[-1])
            if i in (1, 3):
                names.append(big.put(at, "ofs", data=delta_on(data, b"delta"), base=names[-1]))
                at = big.end_of(names[-1])
        big.end = at + 20
        os.truncate(big.fd, big.end)
        big.finish()
        try:
            pf = PackFile(big.stem + ".pack")
            got = [(s.pack_offset, s.type_id) for s in pf.stream_iter(first)]
            expect_eq([o for o, t in got], [big.objs[n][2] for n in names], "offsets when walking")
            pf2 = PackFile(big.stem + ".pack")
            for s, n in zip(pf2.stream_iter(first), names):
                if s.type_id < 5:
                    expect_eq(bytes(s.read()), big.objs[n][1], "content when walking")
            expect_eq(bytes(pf.checksum()), b"\x55" * 20, "checksum")
            expect_eq(len(pf.data()), big.end, "length of the data")
            ent = PackEntity(big.stem + ".pack")
            expect_eq(sorted(o for o in ent.index().offsets()), sorted(big.at), "offsets of the index")
            for n in reversed(names):
                check_object(big, ent, n)
            expect_eq({bytes(i.binsha): (bytes(i.type), i.size) for i in ent.info_iter()}, {n: (o[0], len(o[1])) for n, o in big.objs.items()}, "infos of all objects")
            expect_eq({bytes(s.binsha): bytes(s.read()) for s in ent.stream_iter()}, {n: o[1] for n, o in big.objs.items()}, "contents of all objects")
        finally:
            big.remove()
    for k in ks:
        ctx.run("tail/%d-%d" % (boundary, k), run, k)
        ctx.distinct("placements", ("tail", boundary, k))
        ctx.count("nontrivial")


REGIONS = [12, GIB // 2, GIB - 100, GIB + 5000, 2 * GIB - 9000, 2 * GIB - 20, 2 * GIB + 100, 3 * GIB - 300, 3 * GIB + 77777, 4 * GIB - 20000, 4 * GIB - 10, 4 * GIB + 4096, 4 * GIB + GIB // 2]


def region_pack(ctx, regions, seed, shift=0):
    """One object or delta for each region. :return: Big, names"""
    big = Big(ctx, max(regions) + shift + (2 << 20))
    names = []
    for i, r in enumerate(regions):
        r += shift if i else 0
        if i % 3 == 0:
            names.append(big.put(r, "full", b"blob", content("rand", 400 + 9000 * (i % 2), seed + i), z=STORED))
        elif i % 3 == 1:
            names.append(big.put(r, "ofs", data=delta_on(big.objs[names[0]][1], b"r%d" % i), base=names[0]))
        else:
            names.append(big.put(r, "ref", data=delta_on(big.objs[names[i - 2]][1], b"r%d" % i), base=names[i - 2]))
    big.finish()
    return big, names


def orders(ctx, depth, part, parts):
    """Every history of accessing regions of one pack, with streams of the earlier ones open"""
    from gitdb.pack import PackEntity
    big, names = region_pack(ctx, REGIONS, 100)

    def run(hist):
        release_maps()
        d = big.link(ctx)
        ent = PackEntity(d + "/pack-" + "e" * 40 + ".pack")
        opened = []
        for n, h in enumerate(hist):
            name = names[h]
            typ, data, offset, chain = big.objs[name]
            s = ent.stream(name)
            expect_eq((bytes(s.type), s.size), (typ, len(data)), "stream of region %d" % h)
            opened.append((s, data, bytes(s.read(100))))
            expect_eq(opened[-1][2], data[:100], "beginning of region %d" % h)
            if n % 2:
                i = ent.info(names[hist[0]])
                expect_eq((bytes(i.type), i.size), (big.objs[names[hist[0]]][0], len(big.objs[names[hist[0]]][1])), "info of region %d" % hist[0])
            p = ent.pack().stream(offset)
            expect_eq(p.pack_offset, offset, "offset of region %d" % h)
        for s, data, head in opened:
            expect_eq(head + bytes(s.read()), data, "content of a stream opened before other regions were accessed")
        for h in hist:
            expect(ent.is_valid_stream(names[h], use_crc=True) is True, "crc of region %d", h)
        del ent
        big.remove(d)
    for n, hist in enumerate(itertools.product(range(len(REGIONS)), repeat=depth)):
        if n % parts == part:
            ctx.run("order/%s" % "-".join(map(str, hist)), run, hist)
            ctx.count("nontrivial")
            ctx.count("histories")


def many_packs(ctx, depth, part, parts):
    """The packs together are larger than what may stay mapped"""
    from gitdb.db import PackedDB
    from gitdb.pack import PackEntity
    packs = [region_pack(ctx, [12, 2 * GIB - 50, 4 * GIB + 123], 1000 * (i + 1), 4096 * i) for i in range(3)]
    places = [(i, j) for i in range(3) for j in range(3)]

    def run(hist):
        release_maps()
        dirs = [b.link(ctx) for b, _ in packs]
        ents = [PackEntity(d + "/pack-" + "e" * 40 + ".pack") for d in dirs]
        opened = []
        for i, j in hist:
            big, names = packs[i]
            s = ents[i].stream(names[j])
            data = big.objs[names[j]][1]
            expect_eq(bytes(s.read(10)), data[:10], "beginning of object %d in pack %d" % (j, i))
            opened.append((s, data))
            if len(opened) == 2:
                # the pack of the first one is given up, its stream is not
                ents[hist[0][0]] = PackEntity(dirs[hist[0][0]] + "/pack-" + "e" * 40 + ".idx")
        for s, data in opened:
            expect_eq(bytes(s.read()), data[10:], "remaining content")
        # all of them through one database
        d = ctx.fresh_dir()
        for n, (b, _) in enumerate(packs):
            for e in (".idx", ".pack"):
                os.link(b.stem + e, d + "/pack-%s" % (str(n) * 40) + e)
        db = PackedDB(d)
        keep = []
        for i, j in hist:
            big, names = packs[i]
            keep.append((db.stream(names[j]), big.objs[names[j]]))
            expect_eq(db.info(names[j]).size, len(keep[-1][1][1]), "size by the database")
        for s, o in keep:
            expect_eq(bytes(s.read()), o[1], "content by the database")
        del db
        for n, dd in enumerate(dirs):
            packs[n][0].remove(dd)
            for e in (".idx", ".pack"):
                os.unlink(d + "/pack-%s" % (str(n) * 40) + e)
    for n, hist in enumerate(itertools.product(places, repeat=depth)):
        if n % parts == part:
            ctx.run("packs/%s" % "-".join("%d.%d" % h for h in hist), run, hist)
            ctx.count("nontrivial")
            ctx.count("histories")


CLASSES = (12, 5000, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 12, 1 << 40, (1 << 63) - 1, 0x80000000ff)


def offsets(ctx, n, classes, part, parts, writer):
    """Indices of n entries with every combination of offset classes (made distinct by their position)"""
    from gitdb.pack import IndexWriter, PackIndexFile
    d = ctx.fresh_dir()
    names = [g.sha1(b"%d" % i) for i in range(n)]
    names[-1] = b"\xff" * 20
    names[0] = b"\0" * 20

    def run(num, combo):
        offs = [c + 97 * i if c & 0xff != 0xff else c - 97 * i for i, c in enumerate(combo)]
        offs = [o for o in offs]
        items = [(names[i], 0xfffffff0 + i, o) for i, o in enumerate(offs)]
        want = g.build_idx(items, b"p" * 20)
        p = d + "/%d.idx" % num
        if writer:
            w = IndexWriter()
            for name, crc, o in reversed(items) if num % 2 else items:
                w.append(name, crc, o)
            out = []
            w.write(b"p" * 20, out.append)
            got = b"".join(bytes(x) for x in out)
            version, pitems, sha = g.parse_idx(got)
            expect_eq(pitems, sorted(items), "entries of the written index")
            want = got
        with open(p, "wb") as f:
            f.write(want)
        idx = PackIndexFile(p)
        for i, (name, crc, o) in enumerate(items):
            k = idx.sha_to_index(name)
            expect(k is not None, "entry %d is not found", i)
            expect_eq((idx.offset(k), idx.crc(k), bytes(idx.sha(k))), (o, crc, name), "entry %d" % i)
            expect_eq(tuple(idx.entry(k)), (o, name, crc), "entry %d as a whole" % i)
        expect_eq(sorted(idx.offsets()), sorted(offs), "all offsets")
        expect_eq(list(idx.offsets()), [o for _, _, o in sorted(items)], "offsets in order")
        del idx
        release_maps()
        os.unlink(p)
    for num, combo in enumerate(itertools.product(classes, repeat=n)):
        if num % parts == part:
            ctx.run("offsets/%s/%s" % ("w" if writer else "r", "-".join("%x" % c for c in combo)), run, num, combo)
            ctx.count("nontrivial")
            ctx.count("indices")


def table_orders(ctx, n):
    """The table of 64 bit offsets is used by position: any order of it is fine, as are small offsets in there"""
    from gitdb.pack import PackIndexFile
    d = ctx.fresh_dir()

    def run(num, perm, small):
        offs = [(1 << 32) + 1000 * i if not small >> i & 1 else 12 + 1000 * i for i in range(n)]
        items = sorted((g.sha1(b"t%d" % i), i, o) for i, o in enumerate(offs))
        # as if each of them was large
        idx = bytearray(g.build_idx([(a, b, 1 << 40) for a, b, c in items], b"q" * 20))
        tab = 8 + 1024 + n * 24
        big = [0] * n
        for k in range(n):
            struct.pack_into(">L", idx, tab + 4 * k, 0x80000000 | perm[k])
            big[perm[k]] = items[k][2]
        struct.pack_into(">%dQ" % n, idx, tab + 4 * n, *big)
        p = d + "/t%d.idx" % num
        with open(p, "wb") as f:
            f.write(idx)
        x = PackIndexFile(p)
        expect_eq([x.offset(k) for k in range(n)], [o for _, _, o in items], "offsets")
        expect_eq(list(x.offsets()), [o for _, _, o in items], "all offsets")
        del x
        release_maps()
        os.unlink(p)
    num = 0
    for perm in itertools.permutations(range(n)):
        for small in range(1 << n):
            num += 1
            ctx.run("table/%s/%d" % ("".join(map(str, perm)), small), run, num, perm, small)
            ctx.count("indices")
            ctx.count("nontrivial")


class Zeros:
    """A stream of zeros with a mark at both ends"""

    def __init__(self, size, mark):
        self.left, self.size, self.mark = size, size, mark
        self.zero = bytes(1 << 16)

    def read(self, n=-1):
        expect(0 <= n <= 1 << 24, "asked for %d bytes at once", n)
        n = min(n, self.left)
        m = len(self.mark)
        at = self.size - self.left
        out = self.zero[:n] if n <= 1 << 16 else bytes(n)
        if at < m or self.left - n < m:
            out = bytearray(out)
            for i in range(n):
                if at + i < m:
                    out[i] = self.mark[at + i]
                elif self.size - at - i <= m:
                    out[i] = self.mark[m - (self.size - at - i)]
            out = bytes(out)
        self.left -= n
        return out


def huge(ctx, sizes):
    """Write a pack larger than 4 GiB, check it against the format, read it"""
    import hashlib
    from gitdb.base import OStream
    from gitdb.fun import stream_copy
    from gitdb.pack import PackEntity
    d = ctx.fresh_dir()
    small = [content("text", 100 + i) for i in range(len(sizes) + 1)]
    zero = bytes(1 << 16)

    def big_sha(i, size):
        h = hashlib.sha1(b"blob %d\0" % size)
        s = Zeros(size, b"<mark%d>" % i)
        while s.left:
            h.update(s.read(1 << 16))
        return h.digest()

    def run():
        from io import BytesIO
        big_names = [big_sha(i, s) for i, s in enumerate(sizes)]
        objs = []
        for i, s in enumerate(small):
            objs.append(OStream(g.obj_sha(b"blob", s), b"blob", len(s), BytesIO(s)))
            if i < len(sizes):
                objs.append(OStream(big_names[i], b"blob", sizes[i], Zeros(sizes[i], b"<mark%d>" % i)))
        order = [bytes(o.binsha) for o in objs]
        tmp = d + "/tmp"
        sha = hashlib.sha1()
        out = []

        with open(tmp, "wb", buffering=0) as f:
            def write(b):
                out.append(bytes(b[-20:]))
                del out[:-2]
                sha.update(b)
                n = len(b)
                b = memoryview(b)
                for i in range(0, n, 8192):
                    x = b[i:i + 8192]
                    if x == zero[:len(x)]:
                        f.seek(len(x), 1)
                    else:
                        f.write(x)
                return n
            ib = []
            psha, isha = PackEntity.write_pack(iter(objs), write, ib.append, len(objs), zlib_compression=0)
            total = f.tell()
            f.truncate(total)
        expect(total > sum(sizes), "size of the pack: %d", total)
        idx = b"".join(bytes(b) for b in ib)
        version, items, s = g.parse_idx(idx)
        expect_eq((bytes(psha), s), (psha, psha), "name of the pack in the index")
        expect_eq(isha, idx[-20:], "name of the index")
        where = {n: (o, c) for n, c, o in items}
        expect_eq(sorted(where), sorted(order), "names in the index")
        # walk the file by the reference
        h = hashlib.sha1()
        with open(tmp, "rb") as f:
            left = total - 20
            while left:
                b = f.read(min(1 << 20, left))
                h.update(b)
                left -= len(b)
            expect_eq(f.read(), h.digest(), "trailer of the pack")
            expect_eq(h.digest(), psha, "name of the pack")
            f.seek(0)
            expect_eq(f.read(12), b"PACK" + struct.pack(">LL", 2, len(order)), "header of the pack")
            pos = 12
            for n in order:
                expect_eq(where[n][0], pos, "offset in the index")
                f.seek(pos)
                head = f.read(20)
                t, size, p = g.parse_entry_header(head, 0)
                want = sizes[big_names.index(n)] if n in big_names else len([s for s in small if g.obj_sha(b"blob", s) == n][0])
                expect_eq((t, size), (3, want), "header of an entry")
                crc = zlib.crc32(head[:p])
                f.seek(pos + p)
                z = zlib.decompressobj()
                hh = hashlib.sha1(b"blob %d\0" % size)
                pos += p
                while not z.eof:
                    b = f.read(1 << 20)
                    expect(b, "end of the pack within an entry")
                    hh.update(z.decompress(b))
                    used = len(b) - len(z.unused_data)
                    crc = zlib.crc32(b[:used], crc)
                    pos += used
                expect_eq(hh.digest(), n, "content of an entry")
                expect_eq(where[n][1], crc, "crc of an entry")
            expect_eq(pos, total - 20, "end of the entries")
        stem = d + "/pack-" + psha.hex()
        os.rename(tmp, stem + ".pack")
        with open(stem + ".idx", "wb") as f:
            f.write(idx)
        ent = PackEntity(stem + ".pack")
        for n in reversed(order):
            expect(ent.is_valid_stream(n, use_crc=True) is True, "crc of the entry at %d", where[n][0])
        for i, s in enumerate(small):
            n = g.obj_sha(b"blob", s)
            expect_eq(bytes(ent.stream(n).read()), s, "small object %d" % i)
        expect(ent.is_valid_stream(big_names[-1]) is True, "content of the last large object")
        st = ent.stream(big_names[0])
        expect_eq(st.read(7), b"<mark0>", "beginning of a large object")
        got = [(s.pack_offset, s.size) for s in ent.pack().stream_iter()]
        expect_eq(got, [(where[n][0], ent.info(n).size) for n in order], "walking the pack")
    ctx.run("huge/%s" % "-".join(map(str, sizes)), run)
    ctx.count("nontrivial")


def length(kind, boundary, zlevel):
    """Length of the target's entry, about"""
    return {"full": 60, "rand": 320, "large": 30030, "ofs-near": 50, "ofs-far": 50, "ref-far": 60, "ref-behind": 60, "chain": 60}[kind]


def splits(kind, dense, many):
    n = length(kind, 0, 6)
    if n <= dense:
        return list(range(-2, n + 5))
    out = set(range(-2, 12)) | set(range(n - 14, n + 6))
    out |= {(n - 1) * i // many for i in range(many)}
    for m in (512, 4096, 8000, 8192, 16384):
        out |= {m - 1, m, m + 1, m + 2} if m < n else set()
    return sorted(out)


def units(tier, seed):
    quick = tier == "quick"
    bounds = [GIB, 2 * GIB, 3 * GIB, 4 * GIB, 4 * GIB + 4096, 5 * GIB, 1 << 20] if quick else [1 << 16, 1 << 20, 1 << 26, GIB, 2 * GIB, 3 * GIB, 4 * GIB, 4 * GIB + 4096, 5 * GIB, 6 * GIB, 8 * GIB]
    out = [("huge", huge, dict(sizes=[(2 << 30) + 5000, (2 << 30) + 70000]))]
    if not quick:
        out.append(("huge5", huge, dict(sizes=[100000, (5 << 30) + 1, 3000, 1 << 20])))
    parts = 8 if quick else 64
    for i in range(parts):
        out.append(("orders-%d" % i, orders, dict(depth=3 if quick else 4, part=i, parts=parts)))
    for i in range(4 if quick else 16):
        out.append(("packs-%d" % i, many_packs, dict(depth=3 if quick else 4, part=i, parts=4 if quick else 16)))
    for b in bounds:
        for kind in KINDS:
            ks = splits(kind, 400, 60 if quick else 600)
            for version in (2, 1) if b < 4 * GIB - (3 << 20) else (2,):
                if version == 1 and quick:
                    ks = ks[::7]
                for zl in (6,) if quick else (6, 0):
                    out.append(("%s-%d-v%d-z%d" % (kind, b, version, zl), placements, dict(kind=kind, boundary=b, version=version, ks=ks, zlevel=zl)))
        ks = sorted(set(range(-2, 60)) | set(range(9000, 9060, 7)) | set(range(79000, 79300, 21))) if quick else sorted(set(range(-2, 60)) | set(range(8900, 9200)) | set(range(79000, 79500)))
        out.append(("tails-%d" % b, tails, dict(boundary=b, ks=ks)))
    classes = CLASSES[:9] if quick else CLASSES
    for writer in (False, True):
        for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
            parts = 1 if n < 4 else 4 if n == 4 else 16
            for i in range(parts):
                out.append(("offsets-%d-%d-%s" % (n, i, writer), offsets, dict(n=n, classes=classes, part=i, parts=parts, writer=writer)))
    out.append(("table", table_orders, dict(n=4 if quick else 6)))
    return out
