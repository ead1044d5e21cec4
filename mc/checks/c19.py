"""C19: header and size codecs are exact for every type and size"""
import itertools
import mmap
import os
import zlib

from mc import gitref as g
from mc.core import Violation, expect, expect_eq
from mc.fixtures import ZS, content
from mc.inputs import loose_path

PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of values, encodings and their surroundings, against independent reference codecs"
LEVEL_NOTE = "Every value up to 2^20 (thorough 2^23), every value near each power of two up to 2^70, every combination of 7-bit groups taken from boundary patterns; every kind of buffer; every truncation."
RULE = ("Entry headers: encode each (type, size), compare with git's encoding, decode it again within different surroundings. Sizes and base distances: decode reference encodings, minimal and padded. Loose headers: "
        "produce for each (type, size), parse with all zlib encodings, header lengths and following contents, directly and through the database. Non-trivial: distinct (codec, value) with more than one byte of encoding.")
BOUNDS = {"quick": "values below 2^18 (loose headers 2^15), 2^k +- 20 for k <= 70, 5^k group patterns for k <= 6", "thorough": "values below 2^22 (loose headers 2^19), 2^k +- 200, 7^k group patterns for k <= 6"}
CASE_TIMEOUT = 120
MEM_LIMIT = 32 << 30

TYPES = {1: b"commit", 2: b"tree", 3: b"blob", 4: b"tag"}


def boundaries(tier, kmax=70):
    d = 20 if tier == "quick" else 200
    out = set()
    for k in range(kmax + 1):
        out.update(range(max(0, 2 ** k - d), 2 ** k + d + 1))
    groups = (0, 1, 0x40, 0x7e, 0x7f) if tier == "quick" else (0, 1, 2, 0x3f, 0x40, 0x7e, 0x7f)
    for n in range(1, 7):
        for combo in itertools.product(groups, repeat=n):
            v = 0
            for c in combo:
                v = v << 7 | c
            out.update((v, v << 4 | 15, v << 4))
    return sorted(out)


def chunks(values, n):
    size = max(1, -(-len(values) // n))
    return [values[i:i + size] for i in range(0, len(values), size)]


FOLLOW = (b"", b"\0", b"\xff" * 12, b"\x80" * 12, b"x\x9c\x03\0\0\0\0\1")


# ------------------------------------------------------------------ entry headers
def entry_headers(ctx, lo, hi, values=None):
    from gitdb.fun import create_pack_object_header, pack_object_header_info

    def check(t, size):
        want = g.entry_header(t, size)
        got = bytes(create_pack_object_header(t, size))
        if got != want:
            expect_eq(got, want, "header of type %d, size %d" % (t, size))
        for f in (FOLLOW if values is not None else FOLLOW[size % 5:size % 5 + 1]):
            buf = want + f
            for b in (buf, memoryview(buf), bytearray(buf)) if values is not None else (memoryview(buf),):
                r = tuple(pack_object_header_info(b))
                if r != (t, size, len(want)):
                    expect_eq(r, (t, size, len(want)), "decoding the header of type %d, size %d, followed by %r" % (t, size, f))
        if values is not None:
            for k in range(len(want)):
                try:
                    r = pack_object_header_info(want[:k])
                except (IndexError, ValueError, TypeError, AssertionError):
                    continue
                raise Violation("header of type %d, size %d cut after %d bytes decodes to %r" % (t, size, k, r))
            # redundant groups
            for pad in (1, 2, 5):
                b = want[:-1] + bytes([want[-1] | 0x80]) + b"\x80" * (pad - 1) + b"\0"
                expect_eq(tuple(pack_object_header_info(b + b"\x81")), (t, size, len(b)), "padded header of type %d, size %d" % (t, size))

    if values is None:
        # one case for 256 values
        for start in range(lo, hi, 256):
            for t in (1, 2, 3, 4, 6, 7):
                ctx.run("entry/%d/%d.." % (t, start), lambda: [check(t, s) for s in range(start, min(hi, start + 256))])
                ctx.count("evaluations", min(hi, start + 256) - start)
                if start >= 16:
                    ctx.count("nontrivial", min(hi, start + 256) - start)
    else:
        for s in values:
            for t in (1, 2, 3, 4, 6, 7):
                ctx.run("entry/%d/%d" % (t, s), check, t, s)
                ctx.count("evaluations")
                ctx.count("nontrivial", s > 15)
        ctx.sample({"size": s, "header": g.entry_header(3, s).hex()}, 1)


# ------------------------------------------------------------------ sizes in deltas
def sizes(ctx, lo, hi, values=None):
    from gitdb.fun import msb_size

    def check(n, full):
        for pad in (0, 1, 3) if full else (n % 2,):
            enc = g.size_varint(n, pad)
            for off in (0, 1, 7, 200) if full else (n % 3,):
                for f in FOLLOW if full else (FOLLOW[n % 5],):
                    buf = b"\x85" * off + enc + f
                    for b in (buf, memoryview(buf), bytearray(buf)) if full else (buf,):
                        r = tuple(msb_size(b, off)) if off or not full else tuple(msb_size(b))
                        if r != (off + len(enc), n):
                            expect_eq(r, (off + len(enc), n), "size %d (%s) at %d followed by %r" % (n, enc.hex(), off, f))
            if full:
                for k in range(len(enc)):
                    for off in (0, 3):
                        try:
                            r = msb_size(b"\0" * off + enc[:k], off)
                        except (AssertionError, IndexError, ValueError):
                            continue
                        raise Violation("size %d cut after %d bytes decodes to %r" % (n, k, r))
    if values is None:
        for start in range(lo, hi, 256):
            ctx.run("size/%d.." % start, lambda: [check(n, False) for n in range(start, min(hi, start + 256))])
            ctx.count("evaluations", 256)
            if start >= 128:
                ctx.count("nontrivial", 256)
    else:
        for n in values:
            ctx.run("size/%d" % n, check, n, True)
            ctx.count("evaluations")
            ctx.count("nontrivial", n > 127)


# ------------------------------------------------------------------ distances
class Sparse:
    """A pack with room for any distance, mapped once, whose entry at the end is exchanged"""

    def __init__(self, ctx, size):
        from gitdb.pack import PackFile
        self.at = size - 4096
        self.path = ctx.fresh_dir() + "/pack-x.pack"
        self.fd = os.open(self.path, os.O_RDWR | os.O_CREAT)
        os.truncate(self.fd, size)
        os.pwrite(self.fd, b"PACK\0\0\0\2\0\0\0\2", 0)
        self.entry(g.entry_header(3, 0) + g.Z()(b""))
        self.pack = PackFile(self.path)
        self.pack.info(self.at)

    def entry(self, data):
        os.pwrite(self.fd, data, self.at)

    def close(self):
        os.close(self.fd)
        os.unlink(self.path)


def distances(ctx, lo, hi, values=None, big=1 << 33):
    s = Sparse(ctx, big if values is not None else hi + (1 << 16))
    body = g.Z(1)(b"\1\1\1x")

    def check(d, full):
        for t, size in ((6, 4), (6, 300)) if full else ((6, 4),):
            hdr = g.entry_header(t, size) + g.ofs_varint(d)
            s.entry(hdr + body)
            i = s.pack.info(s.at)
            if (i.type_id, i.size, i.delta_info, i.pack_offset) != (6, size, d, s.at):
                expect_eq((i.type_id, i.size, i.delta_info, i.pack_offset), (6, size, d, s.at), "entry with base distance %d" % d)
            if full:
                st = s.pack.stream(s.at)
                expect_eq((st.type_id, st.size, st.delta_info), (6, size, d), "stream of the entry with base distance %d" % d)
                if size == 4:
                    expect_eq(bytes(st.read()), b"\1\1\1x", "delta data of the entry with base distance %d" % d)
    if values is None:
        for start in range(lo, hi, 256):
            ctx.run("distance/%d.." % start, lambda: [check(n, False) for n in range(max(1, start), min(hi, start + 256))])
            ctx.count("evaluations", 256)
            ctx.count("nontrivial", 256 if start else 128)
    else:
        for n in values:
            if 0 < n <= s.at - 12:
                ctx.run("distance/%d" % n, check, n, True)
                ctx.count("evaluations")
                ctx.count("nontrivial", n > 127)
    s.close()


# ------------------------------------------------------------------ loose headers
def loose_headers(ctx, lo, hi, values=None):
    from gitdb.fun import loose_object_header, loose_object_header_info
    from gitdb.stream import DecompressMemMapReader

    def check(t, size, full):
        want = t + b" " + str(size).encode() + b"\0"
        got = loose_object_header(t, size)
        if got != want:
            expect_eq(got, want, "loose header of %s %d" % (t, size))
        if full:
            expect_eq(loose_object_header(t.decode(), size), want, "loose header of %s %d, type as text" % (t, size))
        for f in FOLLOW if full else (FOLLOW[size % 5],):
            for level in (0, 1, 9) if full else (1,):
                r = loose_object_header_info(zlib.compress(want + f, level))
                if (bytes(r[0]), r[1]) != (t, size):
                    expect_eq((bytes(r[0]), r[1]), (t, size), "parsing the loose header of %s %d, followed by %r" % (t, size, f))
        if full:
            f = FOLLOW[size % 5][:size]
            a, b, s = DecompressMemMapReader.new(zlib.compress(want + f, size % 10))
            expect_eq((bytes(a), b), (t, size), "beginning to read a loose object %s %d" % (t, size))
            expect_eq(bytes(s.read(len(f)) if f else b""), f, "what follows the loose header of %s %d" % (t, size))
            s.seek(0)
            expect_eq(bytes(s.read(len(f)) if f else b""), f, "what follows the loose header of %s %d, once more" % (t, size))
    if values is None:
        for start in range(lo, hi, 256):
            t = TYPES[1 + start // 256 % 4]
            ctx.run("loose/%s/%d.." % (t.decode(), start), lambda: [check(t, n, False) for n in range(start, min(hi, start + 256))])
            ctx.count("evaluations", 256)
            ctx.count("nontrivial", 256)
    else:
        for n in values:
            for t in TYPES.values():
                ctx.run("loose/%s/%d" % (t.decode(), n), check, t, n, True)
                ctx.count("evaluations")
                ctx.count("nontrivial")


def loose_files(ctx, zs, tier):
    """Files with all kinds of content behind the header, read by the database"""
    from gitdb.db import LooseObjectDB
    from gitdb.fun import loose_object_header_info
    from gitdb.stream import DecompressMemMapReader
    db_dir = ctx.fresh_dir() + "/objects"
    os.makedirs(db_dir)
    db = LooseObjectDB(db_dir)
    z = ZS[zs]
    lengths = list(range(0, 40)) + [100, 247, 248, 249, 250, 511, 512, 513, 4095, 4096, 8180, 8181, 8183, 8184, 8185, 8191, 8192, 8193, 9999, 10000, 65535, 65536, 99999, 100000]
    if tier != "quick":
        lengths = sorted(set(lengths) | set(range(0, 300)) | set(range(8000, 8300)))
    kinds = {"nul": lambda n: b"\0" * n, "space": lambda n: b" " * n, "digits": lambda n: (b"0123456789" * (n // 10 + 1))[:n], "header": lambda n: (b"blob 5\0" * (n // 7 + 1))[:n],
             "rand": lambda n: content("rand", n), "ff": lambda n: b"\xff" * n}
    n = 0
    for t in TYPES.values():
        for kind, fn in kinds.items():
            for length in lengths:
                n += 1

                def run():
                    data = fn(length)
                    raw = z(g.canonical(t, data))
                    r = loose_object_header_info(raw)
                    expect_eq((bytes(r[0]), r[1]), (t, length), "header info")
                    a, b, st = DecompressMemMapReader.new(raw)
                    expect_eq((bytes(a), b), (t, length), "type and size when reading begins")
                    expect_eq(bytes(st.read()), data, "content following the header")
                    # the name does not matter to the database
                    sha = g.sha1(raw)
                    p = os.path.join(db_dir, loose_path(sha))
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(raw)
                    i = db.info(sha)
                    expect_eq((bytes(i.type), i.size), (t, length), "info")
                    s = db.stream(sha)
                    expect_eq((bytes(s.type), s.size), (t, length), "stream")
                    os.unlink(p)
                ctx.run("file/%s/%s/%s/%d" % (zs, t.decode(), kind, length), run)
                ctx.count("evaluations")
                ctx.distinct("files", (zs, t, kind, length))
    ctx.count("nontrivial", n)


def is_loose(ctx):
    from gitdb.fun import is_loose_object

    def run(b0):
        for b1 in range(256):
            for f in FOLLOW[:2]:
                b = bytes([b0, b1]) + f
                want = b0 == 0x78 and (b0 * 256 + b1) % 31 == 0
                for x in (b, memoryview(b)):
                    expect(bool(is_loose_object(x)) is want, "is_loose_object(%s)", b.hex())
    for b0 in range(256):
        ctx.run("magic/%d" % b0, run, b0)
        ctx.count("evaluations", 256)
    m = mmap.mmap(-1, 10)
    m[:2] = b"\x78\x9c"
    ctx.run("magic/mmap", lambda: expect(is_loose_object(m), "is_loose_object of a memory map"))


def units(tier, seed):
    quick = tier == "quick"
    out = []
    top = 1 << 18 if quick else 1 << 22
    step = top // 16
    for lo in range(0, top, step):
        for fn in (entry_headers, sizes, distances):
            out.append(("%s-%d" % (fn.__name__, lo), fn, dict(lo=lo, hi=lo + step)))
    top = 1 << 15 if quick else 1 << 19
    for lo in range(0, top, top // 8):
        out.append(("loose_headers-%d" % lo, loose_headers, dict(lo=lo, hi=lo + top // 8)))
    for fn, vs in ((entry_headers, boundaries(tier)), (sizes, boundaries(tier)), (distances, boundaries(tier, 33)), (loose_headers, boundaries(tier))):
        for i, v in enumerate(chunks(vs, 8 if quick else 32)):
            out.append(("%s-b%d" % (fn.__name__, i), fn, dict(lo=0, hi=0, values=v)))
    for zs in ZS:
        out.append(("files-%s" % zs, loose_files, dict(zs=zs, tier=tier)))
    out.append(("magic", is_loose, {}))
    return out
