"""C09: verification accepts exactly the intact objects"""
import itertools
import os
import zlib

from mc import gitref as g
from mc.core import HarnessError, expect, expect_eq
from mc.deltas import uniq, encode
from mc.fixtures import content, ZS

PROPERTY = "C09"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of damages (every bit, every byte edit) of small packs; verification by the real code against an independent decoder"
LEVEL_NOTE = ("Every single damage of the listed kinds to every byte of the entries of the listed packs. Damages are bursts of at most 32 bits, which "
              "CRC-32 always detects; by content, damage that changes neither type nor content may be reported either way unless the entry is still well-formed.")
RULE = ("For each pack layout, intact and with every single-bit flip, every byte set to 0/255/swapped with its neighbour, exchanged zlib headers, exchanged "
        "names and altered index checksums: every object is verified by checksum and by content. Non-trivial: distinct damages x objects.")
BOUNDS = {"quick": "9 layouts of 1..6 entries (full, ofs, ref, chains of 3), v1 and v2; all bit flips; all orders of names over offsets; entries of >2 chunks and of 1 and 2 chunks -2..+6 bytes; 64-bit slots in the index for every subset",
          "thorough": "as quick, plus all 2-bit bursts and all byte substitutions, more layouts"}
CASE_TIMEOUT = 30


def layouts():
    text = b"the quick brown fox jumps over the lazy dog 0123456789"
    d1 = encode([("c", 4, 30), ("i", b"one")], len(text))
    d2 = encode([("i", b"two"), ("c", 0, 33)], 33)
    d3 = encode([("c", 10, 20)], 36)

    def full(t, d, z="l6"):
        return g.E("full", t, d, z=ZS[z])
    yield "single", [full(b"blob", text)]
    yield "empty", [full(b"tree", b"")]
    yield "two", [full(b"blob", text), full(b"commit", b"other")]
    yield "stored", [full(b"tag", text, "l0"), full(b"blob", b"", "l0"), full(b"tree", b"last", "stored1")]
    yield "ofs", [full(b"blob", text), g.E("ofs", data=d1, base=0)]
    yield "ref", [g.E("ref", data=d1, base=1), full(b"commit", text)]
    yield "chain", [full(b"blob", text), g.E("ofs", data=d1, base=0), g.E("ofs", data=d2, base=1), full(b"tree", b"between"), g.E("ref", data=d3, base=2)]
    yield "mixed", [g.E("ref", data=d2, base=2), full(b"tag", text, "l0"), g.E("ofs", data=d1, base=1), g.E("ofs", data=d3, base=0)]
    yield "blocks", [full(b"blob", text, "sync1k"), full(b"blob", text + b"2", "trail40"), full(b"blob", text + b"3", "fixed")]
    # type ids 1..4 all there; sizes with 1, 2 and 3 byte headers
    yield "types", [full(b"commit", b"c" * 15), full(b"tree", b"t" * 16), full(b"blob", b"b" * 2047), full(b"tag", b"g" * 2048)]


def inflate(data, pos, size):
    """:return: (content or None, well-formed)"""
    z = zlib.decompressobj()
    out = bytearray()
    try:
        # byte by byte, to get whatever comes before an error
        while not z.eof and len(out) <= size and pos < len(data):
            out += z.decompress(data[pos:pos + 1])
            pos += 1
    except zlib.error:
        return (bytes(out[:size]) if len(out) >= size else None), False
    if len(out) < size:
        return None, False
    return bytes(out[:size]), z.eof and len(out) == size


def resolve(data, offset, by_name, seen=()):
    """:return: (type, content, well-formed) or None. An independent, tolerant decoder"""
    if offset in seen or not 12 <= offset < len(data):
        return None
    try:
        tid, size, pos = g.parse_entry_header(data, offset)
        base = None
        if tid == g.OFS:
            dist, pos = g.parse_ofs_varint(data, pos)
            base = offset - dist
        elif tid == g.REF:
            base = by_name.get(bytes(data[pos:pos + 20]))
            pos += 20
            if base is None:
                return None
        elif tid not in g.TYPES:
            return None
    except IndexError:
        return None
    if size > 1 << 20:
        return None
    body, ok = inflate(data, pos, size)
    if body is None:
        return None
    if base is None:
        return g.TYPES[tid], body, ok
    b = resolve(data, base, by_name, seen + (offset,))
    if b is None:
        return None
    try:
        return b[0], g.delta_apply(b[1], body), ok and b[2]
    except g.BadDelta:
        return None


def verify(entity, name, crc):
    try:
        return entity.is_valid_stream(name, use_crc=crc)
    except Exception:
        return "raised"


def check_all(path, items, data, intact, version):
    """:param intact: {name: bytes of the entry are unchanged and its crc is the one in the index}"""
    from gitdb.pack import PackEntity
    from gitdb.exc import UnsupportedOperation
    entity = PackEntity(path)
    by_name = {n: o for n, _, o in items}
    for name, crc, offset in items:
        if version == 2:
            r = verify(entity, name, True)
            if intact[name]:
                expect(r is True, "by checksum: intact object %s at %d reported as %s", name.hex()[:8], offset, r)
            else:
                expect(r is False or r == "raised", "by checksum: damaged object %s at %d reported as %s", name.hex()[:8], offset, r)
        else:
            try:
                entity.is_valid_stream(name, use_crc=True)
                expect(False, "version 1 index has no checksums, but verification by checksum answered")
            except UnsupportedOperation:
                pass
        res = resolve(data, offset, by_name)
        r = verify(entity, name, False)
        if res is None or g.obj_sha(res[0], res[1]) != name:
            expect(r is False or r == "raised", "by content: damaged object %s at %d reported as %s", name.hex()[:8], offset, r)
        elif res[2]:
            expect(r is True, "by content: intact object %s at %d reported as %s", name.hex()[:8], offset, r)
        else:
            expect(r in (True, False, "raised"), "by content: answered %r", r)
    try:
        expect(not entity.is_valid_stream(b"\x99" * 20), "an absent object is valid")
    except Exception:
        pass


class Run:
    def __init__(self, ctx):
        self.ctx, self.n, self.d = ctx, 0, ctx.fresh_dir()

    def __call__(self, cid, items, data, intact, version, pack_sha=None, idx=None):
        self.n += 1
        stem = "%s/pack-%d" % (self.d, self.n)
        with open(stem + ".pack", "wb") as f:
            f.write(data)
        with open(stem + ".idx", "wb") as f:
            f.write(idx or g.build_idx(items, pack_sha or data[-20:], version))
        self.ctx.run(cid, check_all, stem + ".pack", items, data, intact, version)
        self.ctx.count("verifications", len(items) * (2 if version == 2 else 1))
        for name, ok in intact.items():
            if not ok:
                self.ctx.distinct("nontrivial", (cid, name))
        os.unlink(stem + ".pack")
        os.unlink(stem + ".idx")
        if self.n % 100 == 0:
            from gitdb.util import mman
            getattr(mman, "collect", int)()


def build(ents):
    data = g.build_pack(ents)
    assert all(e.name for e in ents)
    return data, [(e.name, e.crc, e.offset) for e in ents]


def damages(data, lo, hi, thorough):
    """(label, first byte changed, damaged data)"""
    for pos in range(lo, hi):
        c = data[pos]
        new = {c ^ 1 << b for b in range(8)} | {0, 255}
        if thorough:
            new |= set(range(256))
        for v in sorted(new - {c}):
            yield "%d=%02x" % (pos, v), pos, pos, data[:pos] + bytes([v]) + data[pos + 1:]
        if pos + 1 < hi:
            if data[pos] != data[pos + 1]:
                yield "swap%d" % pos, pos, pos + 1, data[:pos] + bytes([data[pos + 1], c]) + data[pos + 2:]
            if thorough:
                for b in range(8):
                    for b2 in range(8):
                        yield "bits%d.%d.%d" % (pos, b, b2), pos, pos + 1, data[:pos] + bytes([c ^ 1 << b, data[pos + 1] ^ 1 << b2]) + data[pos + 2:]


def flips(ctx, name, ents, part, parts, version, thorough):
    run = Run(ctx)
    data, items = build(ents)
    for n, (label, p1, p2, bad) in enumerate(damages(data, 12, len(data) - 20, thorough)):
        if n % parts != part:
            continue
        intact = {e.name: not (e.offset <= p1 < e.end or e.offset <= p2 < e.end) for e in ents}
        run("flip/%s/v%d/%s" % (name, version, label), items, bad, intact, version)
    ctx.sample({"layout": name, "damage": label, "version": version}, 1)


def intact_and_exchanged(ctx, name, ents):
    run = Run(ctx)
    data, items = build(ents)
    ok = {e.name: True for e in ents}
    for version in (1, 2):
        run("intact/%s/v%d" % (name, version), items, data, ok, version)
    # names exchanged: stored bytes are what the index was made for, content is not
    for a, b in itertools.combinations(range(len(items)), 2):
        it = list(items)
        it[a], it[b] = (items[b][0],) + items[a][1:], (items[a][0],) + items[b][1:]
        run("names/%s/%d-%d" % (name, a, b), it, data, ok, 2)
    # checksum in the index altered
    for a in range(len(items)):
        for bit in range(32):
            it = list(items)
            it[a] = (items[a][0], items[a][1] ^ 1 << bit, items[a][2])
            run("idxcrc/%s/%d.%d" % (name, a, bit), it, data, {**ok, items[a][0]: False}, 2)
    # other zlib headers which are equally fine
    for e in ents:
        at = e.offset
        if e.kind == "ofs":
            _, at = g.parse_ofs_varint(data, g.parse_entry_header(data, at)[2])
        elif e.kind == "ref":
            at = g.parse_entry_header(data, at)[2] + 20
        else:
            at = g.parse_entry_header(data, at)[2]
        for h in (b"\x78\x01", b"\x78\x5e", b"\x78\x9c", b"\x78\xda"):
            if data[at:at + 2] != h:
                run("zhead/%s/%d/%s" % (name, e.offset, h.hex()), items, data[:at] + h + data[at + 2:], {**ok, e.name: False}, 2)


def orders(ctx, count, part, parts):
    """Every order of names relative to offsets; lengths all different"""
    run = Run(ctx)
    for n, perm in enumerate(itertools.permutations(range(count))):
        if n % parts != part:
            continue
        # find contents whose names sort as wanted
        ents = [g.E("full", b"blob", b"x" * (i * 3) + b"%d" % i) for i in range(count)]
        g.build_pack(ents)
        by_name = sorted(range(count), key=lambda i: ents[i].name)
        placed = [None] * count
        for rank, place in enumerate(perm):
            placed[place] = ents[by_name[rank]]
        data, items = build(placed)
        run("order/%s" % "".join(map(str, perm)), items, data, {e.name: True for e in placed}, 2)
        for e in placed:
            # last byte of each entry
            bad = data[:e.end - 1] + bytes([data[e.end - 1] ^ 0x10]) + data[e.end:]
            run("order/%s/last%d" % ("".join(map(str, perm)), e.offset), items, bad, {x.name: x is not e for x in placed}, 2)


def slots(ctx, name, ents):
    """Offsets in the index in their 64-bit form, for any subset of the entries, by any order of the slots"""
    run = Run(ctx)
    data, items = build(ents)
    for mask in range(1, 1 << len(items)):
        for rev in (False, True):
            idx = g.build_idx(items, data[-20:], 2, wide={items[i][0] for i in range(len(items)) if mask >> i & 1}, reverse=rev)
            run("slots/%s/%x/%d" % (name, mask, rev), items, data, {e.name: True for e in ents}, 2, idx=idx)
            for e in ents:
                bad = data[:e.end - 1] + bytes([data[e.end - 1] ^ 1]) + data[e.end:]
                run("slots/%s/%x/%d/last%d" % (name, mask, rev, e.offset), items, bad, {x.name: x is not e for x in ents}, 2, idx=idx)


def many(ctx, count):
    run = Run(ctx)
    ents = [g.E("full", b"blob", b"%d" % i * (i % 9)) for i in range(9, count)]
    uni = {g.obj_sha(e.typ, e.data): e for e in ents}
    ents = list(uni.values())
    data, items = build(ents)
    run("many/intact", items, data, {e.name: True for e in ents}, 2)
    for e in ents[:3] + ents[-3:]:
        bad = data[:e.end - 1] + bytes([data[e.end - 1] ^ 1]) + data[e.end:]
        run("many/%d" % e.offset, items, bad, {x.name: x is not e for x in ents}, 2)


def large(ctx, size, zname, last, exact=False):
    """Entries of several chunks"""
    from gitdb.pack import PackEntity
    def make(n):
        return [g.E("full", b"blob", b"first"), g.E("full", b"tree", content("rand", n, ctx.seed), z=ZS[zname])]
    n = size
    if exact:
        # the entry takes exactly so many bytes of the pack
        for _ in range(10):
            ents = make(n)
            g.build_pack(ents)
            have = ents[1].end - ents[1].offset
            if have == size:
                break
            n += size - have
        else:
            raise HarnessError("cannot make an entry of %d bytes" % size)
    ents = make(n)
    if not last:
        ents.append(g.E("full", b"blob", b"after"))
    data, items = build(ents)
    e = ents[1]
    d = ctx.fresh_dir()
    n = [0]

    def check(pos):
        n[0] += 1
        stem = "%s/pack-%d" % (d, n[0])
        bad = data if pos is None else data[:pos] + bytes([data[pos] ^ 4]) + data[pos + 1:]
        with open(stem + ".pack", "wb") as f:
            f.write(bad)
        with open(stem + ".idx", "wb") as f:
            f.write(g.build_idx(items, data[-20:], 2))
        entity = PackEntity(stem + ".pack")
        for x in ents:
            r = verify(entity, x.name, True)
            ok = pos is None or not x.offset <= pos < x.end
            expect((r is True) == ok, "by checksum: object at %d of %d bytes reported as %s", x.offset, len(x.data), r)
            if exact and pos is not None:
                continue                # by content as above
            if x is e and pos is not None and pos < e.end - 10:
                expect(verify(entity, x.name, False) is not True, "by content: damaged object reported as valid")
            elif ok:
                expect(verify(entity, x.name, False) is True, "by content: intact object reported as invalid")
        os.unlink(stem + ".pack")
    chunk = 4096000
    spots = [e.offset, e.offset + 1, e.offset + 8] + [e.offset + k * chunk + x for k in (1, 2) for x in (-1, 0, 1)] + [
        k * chunk + x for k in (1, 2) for x in (-1, 0, 1)] + [e.end - 200] + [e.end - k for k in range(7, 0, -1)]
    for pos in [None] + [p for p in spots if p < len(data) - 20]:
        ctx.run("large%s/%d/%s/%s/%s" % ("x" * exact, size, zname, last, pos), check, pos)
        ctx.distinct("nontrivial", (size, zname, last, pos, exact))
    # and the first byte behind it
    if not last:
        ctx.run("large/%d/%s/behind" % (size, zname), check, e.end)


def units(tier, seed):
    quick = tier == "quick"
    out = []
    for name, ents in layouts():
        if name != "types":
            parts = 4 if quick else 16
            for version in (2,) if quick and name not in ("chain", "ref") else (2, 1):
                for part in range(parts):
                    out.append(("flip-%s-v%d-%d" % (name, version, part), flips, dict(name=name, ents=ents, part=part, parts=parts,
                                                                                      version=version, thorough=not quick)))
        out.append(("other-" + name, intact_and_exchanged, dict(name=name, ents=ents)))
    for count in (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6):
        parts = {5: 4, 6: 16}.get(count, 1)
        for part in range(parts):
            out.append(("orders-%d-%d" % (count, part), orders, dict(count=count, part=part, parts=parts)))
    out.append(("many", many, dict(count=400)))
    for size in (4095990, 4096000, 8500000):
        for zname in ("l0", "l1"):
            for last in (True, False):
                out.append(("large-%d-%s-%s" % (size, zname, last), large, dict(size=size, zname=zname, last=last)))
    for k in (1, 2):
        for d in range(-2, 7):
            out.append(("exact-%d%+d" % (k, d), large, dict(size=4096000 * k + d, zname="l0", last=d % 2 == 0, exact=True)))
    for name, ents in layouts():
        out.append(("slots-" + name, slots, dict(name=name, ents=ents)))
    return out
