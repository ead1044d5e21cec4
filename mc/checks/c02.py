"""C02: object streams behave as byte files under every sequence of reads and rewinds"""
import os
from io import BytesIO

from mc import gitref as g
from mc.core import expect, expect_eq, Violation
from mc.fixtures import ZS, content

PROPERTY = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation sequences (reads, rewinds) of the real stream objects against a byte file model"
LEVEL_NOTE = ("Every sequence up to the depth on every listed encoding; content classes and read sizes are representatives chosen around internal boundaries (buffer, window, header sizes).")
RULE = ("Explicit-state exploration of the model (fixture, position, rewinds) by executing every operation sequence "
        "{read(n) for n in a boundary set, read(), rewind} up to the depth on the real stream; after each operation the "
        "bytes returned are compared with the model. States: distinct (fixture, position, rewinds); transitions: operations executed; "
        "traces: complete sequences executed against the implementation.")
BOUNDS = {"quick": "depth 3 (small objects 4), 5 stream kinds, 20 zlib encodings, sizes 0..70000",
          "thorough": "depth 4 (small objects 5), 5 stream kinds, 20 zlib encodings, sizes 0..200000"}
ASSUMPTIONS = ["read(0) is not part of the alphabet (gitdb documents no meaning for it)"]

REWIND = "rewind"
ALL = "all"


def ops_for(kind, size, hdr):
    """Boundary read sizes"""
    if size <= 40:
        s = {1, 2, size // 2, size - 1, size, size + 1, 100}
    else:
        s = {1, 8, 100, 4096, size - 1, size, size + 1}
        if kind in ("loose", "mem", "reader"):
            buf = 8192 - hdr
            if size > buf - 2:
                s -= {100, size + 1}
                s |= {buf - 1, buf, buf + 1}
        elif kind == "delta":
            s -= {4096}
        else:
            s |= {7, 9}
    return [REWIND, ALL] + sorted(n for n in s if n > 0)


def leaves(size, ops, depth):
    """All maximal sequences: pruned after one read at the end of the object"""
    def rec(seq, pos, left, at_end):
        if not left:
            yield seq
            return
        ext = False
        for op in ops:
            if op == REWIND:
                if seq and seq[-1] == REWIND:
                    continue
                if len(seq) == 0 and left > 1:
                    pass
                npos, end = 0, False
            else:
                if at_end:
                    continue
                npos = size if op == ALL else min(size, pos + op)
                end = pos == size
            ext = True
            yield from rec(seq + (op,), npos, left - 1, end)
        if not ext:
            yield seq
    return rec((), 0, depth, False)


def execute(ctx, fid, make, data, seq):
    size = len(data)
    st = make()
    expect_eq(st.size, size, "size")
    pos = rew = 0

    def rd(n=None):
        nonlocal pos
        got = st.read() if n is None else st.read(n)
        want = data[pos:] if n is None else data[pos:pos + n]
        if bytes(got) != want:
            if len(got) != len(want):
                raise Violation("read(%s) at position %d of %d returned %d bytes, expected %d"
                                % ("" if n is None else n, pos, size, len(got), len(want)))
            raise Violation("read(%s) at position %d of %d returned wrong bytes" % ("" if n is None else n, pos, size))
        pos += len(want)
    for op in seq:
        if op == REWIND:
            st.stream.seek(0)
            pos = 0
            rew += 1
        elif op == ALL:
            rd()
        else:
            rd(op)
        ctx.count("transitions")
        ctx.distinct("states", "%s %d %d" % (fid, pos, rew))
    # wherever we are now, the rest has to be there, and afterwards nothing
    if pos < size:
        rd()
    rd(5)
    st.stream.seek(0)
    pos = 0
    if size:
        rd(1)
        rd(size)
    ctx.count("transitions", 4)
    ctx.count("traces")


def unit(ctx, kind, zname, sizes, classes, depth, small_depth):
    from gitdb.db import LooseObjectDB, MemoryDB
    from gitdb.pack import PackEntity
    from gitdb.base import IStream, OStream
    from gitdb.stream import DecompressMemMapReader
    import zlib
    z = ZS[zname]
    for cls in classes:
        for size in sizes:
            data = content(cls, size, ctx.seed)
            raw = g.canonical(b"blob", data)
            sha = g.sha1(raw)
            hdr = len(raw) - size
            if kind == "loose":
                root = ctx.fresh_dir()
                h = sha.hex()
                os.makedirs(os.path.join(root, h[:2]))
                with open(os.path.join(root, h[:2], h[2:]), "wb") as f:
                    f.write(z(raw))
                db = LooseObjectDB(root)

                def make():
                    return db.stream(sha)
            elif kind == "reader":
                # object data in memory, the header is parsed on first access, and something follows
                comp = z(raw) + b"trailing"

                def make():
                    return OStream(sha, b"blob", size, DecompressMemMapReader(comp, False))
            elif kind == "mem":
                comp = z(raw)
                mdb = MemoryDB()
                mdb.store(IStream(b"blob", size, BytesIO(comp), sha))

                def make():
                    return mdb.stream(sha)
            elif kind == "pack":
                other = g.E("full", b"blob", b"something that follows", z=ZS["l0"])
                ent = g.E("full", b"blob", data, z=z)
                p = g.write_pack(ctx.fresh_dir(), [ent, other])
                entity = PackEntity(p)

                def make():
                    return entity.stream(sha)
            elif kind == "delta":
                half = size // 2
                base = data[half:] + b"-" * 10
                ops = [g.op_insert(data[i:i + 127][:half - i]) for i in range(0, half, 127)]
                pos = 0
                while pos < size - half:
                    n = min(60000, size - half - pos)
                    ops.append(g.op_copy(pos, n))
                    pos += n
                b = g.E("full", b"blob", base, z=z)
                ent = g.E("ofs", data=g.delta(len(base), size, *ops), base=0, z=z)
                p = g.write_pack(ctx.fresh_dir(), [b, ent])
                assert ent.result == data
                entity = PackEntity(p)

                def make():
                    return entity.stream(sha)
            fid = "%s/%s/%s/%d" % (kind, zname, cls, size)
            ctx.distinct("fixtures", fid)
            ops = ops_for(kind, size, hdr)
            for seq in leaves(size, ops, small_depth if size <= 40 else depth):
                ctx.run(fid + ":" + ",".join(map(str, seq)), execute, ctx, fid, make, data, seq)
            ctx.sample({"fixture": fid, "operations": [str(o) for o in ops], "last": [str(o) for o in seq]}, 1)


def units(tier, seed):
    depth, small = (3, 4) if tier == "quick" else (4, 5)
    hdr4 = len("blob 8192\0")
    hdrb = 8192 - hdr4
    out = []
    small_sizes = [0, 1, 2, 7, 8, 9, 40]
    mid = [100, 511, 512, 513, 4096]
    big = [hdrb - 1, hdrb, hdrb + 1, 8192, 8193, 20000]
    huge = [70000] if tier == "quick" else [65536, 70000, 200000]
    for zname in ZS:
        for kind in ("loose", "reader", "mem", "pack", "delta"):
            if kind == "reader" and zname not in ("l6", "l0", "l9", "full7", "lead40", "trail1", "stored100e"):
                continue
            if kind == "delta" and zname not in ("l6", "l0", "l9", "m1", "sync1k", "lead3000", "trail40", "stored1"):
                continue
            cl = ("rand", "text", "zero")
            out.append(("%s-%s-s" % (kind, zname), unit,
                        dict(kind=kind, zname=zname, sizes=small_sizes, classes=("rand",) if tier == "quick" else cl,
                             depth=depth, small_depth=small)))
            for cls in cl + (("mix",) if tier != "quick" or kind in ("loose", "pack") else ()):
                sizes = mid + big if cls != "mix" else [20000]
                out.append(("%s-%s-%s" % (kind, zname, cls), unit,
                            dict(kind=kind, zname=zname, sizes=sizes, classes=(cls,), depth=depth, small_depth=small)))
                if cls == "rand" or tier != "quick":
                    out.append(("%s-%s-%s-h" % (kind, zname, cls), unit,
                                dict(kind=kind, zname=zname, sizes=huge, classes=(cls,), depth=depth, small_depth=small)))
    # longest first
    out.sort(key=lambda u: -sum(u[2]["sizes"]))
    return out
