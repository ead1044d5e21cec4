"""C08: walking a pack visits every entry once, at its true boundaries"""
import itertools

from mc import gitref as g
from mc.core import expect, expect_eq
from mc.deltas import uniq, encode
from mc.fixtures import content, ZS

PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of entry sequences x zlib encodings x starting points, the real walk compared with the entries built"
LEVEL_NOTE = "All sequences up to the stated length over the alphabets of entries and encodings, every entry as starting point, several ways of consuming the streams while walking."
RULE = ("Packs made of every sequence of entries over an alphabet of kinds (empty, one byte, page sized, incompressible, compressible, ofs and ref "
        "deltas) and zlib encodings (levels, strategies, stored blocks, empty blocks before and after the data); each is walked from the beginning and "
        "from every entry, consuming streams not at all, partly, fully, after the walk, or nested. Non-trivial: distinct (sequence, encodings).")
BOUNDS = {"quick": "sequences of <=3 over 9 kinds x 4 encodings, pairs over 24 sizes x 20 encodings, sizes 0..1100 singly",
          "thorough": "sequences of <=4 over 9 kinds x 6 encodings, pairs over 60 sizes x 20 encodings, sizes 0..9000 singly"}
CASE_TIMEOUT = 15

KINDS = {
    "empty": ("full", b"blob", b""), "one": ("full", b"tag", b"1"), "small": ("full", b"commit", b"commit " * 7),
    "page": ("full", b"tree", content("rand", 4096)), "page1": ("full", b"blob", content("text", 4097)),
    "zeros": ("full", b"blob", b"\0" * 20000), "rand": ("full", b"blob", content("rand", 6000)),
    "ofs": ("ofs", None, encode([("i", b"delta")], 5)), "ref": ("ref", None, encode([("i", b"other delta" * 9)], 5)),
}


def make(items, prefix):
    """:param items: sequence of (kind, encoding name)"""
    ents = []
    for n, (kind, zname) in enumerate(items):
        k, typ, data = KINDS[kind] if isinstance(kind, str) else kind
        e = g.E(k, typ, data, base=0 if k == "ofs" else uniq("base") if k == "ref" else None, name=uniq(prefix, n), z=ZS[zname])
        ents.append(e)
    return ents


def describe(ents):
    out = []
    for e in ents:
        tid = {"ofs": g.OFS, "ref": g.REF}.get(e.kind) or g.TYPE_IDS[e.typ]
        out.append((e.offset, tid, len(e.data), e.offset - ents[e.base].offset if e.kind == "ofs" else e.base if e.kind == "ref" else None, e.data))
    return out


def header(o):
    delta = getattr(o, "delta_info", None)
    if isinstance(delta, memoryview):
        delta = bytes(delta)
    return (o.pack_offset, o.type_id, o.size, delta)


def check_consumed(o, e):
    """A stream knows how many bytes of the pack it takes, however often it was started over"""
    o.stream.seek(0)
    o.read()
    start = o.pack_offset + data_offset(e)
    expect_eq(o.stream.compressed_bytes_read(), e.end - start, "compressed size of the entry at %d" % o.pack_offset)


def data_offset(e):
    return e.end - e.offset - len(e.raw if e.raw is not None else e.z(e.data))


def check_walk(path, ents, deep=True):
    from gitdb.pack import PackFile
    want = describe(ents)
    heads = [w[:4] for w in want]
    p = PackFile(path)
    expect_eq(p.size(), len(ents), "number of entries")
    # collected first, read after the walk
    got = list(p.stream_iter())
    expect_eq([header(o) for o in got], heads, "walk")
    for o, w in zip(got, want):
        expect_eq(bytes(o.read()), w[4], "content of the entry at %d, read after the walk" % w[0])
        expect_eq(bytes(o.read()), b"", "read at the end")
    for o, e in zip(got, ents):
        check_consumed(o, e)
    # consumed while walking, in different ways
    n = 0
    for o in p.stream_iter(0):
        expect(n < len(want), "more entries than there are: offset %s", o.pack_offset)
        w = want[n]
        expect_eq(header(o), w[:4], "entry %d" % n)
        if n % 3 == 0:
            expect_eq(bytes(o.read()), w[4], "content of the entry at %d, read while walking" % w[0])
        elif n % 3 == 1:
            expect_eq(bytes(o.read(7)), w[4][:7], "first bytes of the entry at %d" % w[0])
        n += 1
    expect_eq(n, len(want), "number of entries walked")
    # from every entry
    for i, w in enumerate(want):
        got = list(p.stream_iter(w[0]))
        expect_eq([header(o) for o in got], heads[i:], "walk from %d" % w[0])
        if got and deep:
            expect_eq(bytes(got[-1].read()), want[-1][4], "content of the last one")
            expect_eq(bytes(got[0].read()), w[4] if len(got) > 1 else b"", "content of the first one")
        # direct access agrees
        expect_eq(header(p.info(w[0])), w[:4], "info(%d)" % w[0])
        s = p.stream(w[0])
        expect_eq(header(s), w[:4], "stream(%d)" % w[0])
        expect_eq(bytes(s.read()), w[4], "content of stream(%d)" % w[0])
    if deep and len(want) > 1:
        # two walks at the same time do not disturb each other
        a, b = p.stream_iter(), p.stream_iter(want[1][0])
        got = []
        for x in a:
            y = next(b, None)
            got.append((header(x), y and header(y), bytes(x.read(3)), y and bytes(y.read(3))))
        expect_eq(got, [(heads[i], heads[i + 1] if i + 1 < len(heads) else None, want[i][4][:3],
                         want[i + 1][4][:3] if i + 1 < len(heads) else None) for i in range(len(heads))], "nested walks")


class Run:
    def __init__(self, ctx):
        self.ctx, self.n, self.d = ctx, 0, ctx.fresh_dir()

    def __call__(self, cid, items, deep=True):
        ents = make(items, cid)
        data = g.build_pack_raw(ents)
        self.n += 1
        path = "%s/p%d.pack" % (self.d, self.n)
        with open(path, "wb") as f:
            f.write(data)
        self.ctx.run(cid, check_walk, path, ents, deep)
        self.ctx.count("entries", len(ents))
        self.ctx.distinct("nontrivial", cid)
        import os
        os.unlink(path)
        if self.n % 100 == 0:
            from gitdb.util import mman
            getattr(mman, "collect", int)()


def sequences(ctx, length, encodings, part, parts):
    run = Run(ctx)
    alpha = [(k, z) for k in KINDS for z in encodings]
    for n, items in enumerate(itertools.product(alpha, repeat=length)):
        # an offset delta needs something before it
        if n % parts == part and items[0][0] != "ofs":
            run("seq/" + ",".join("%s:%s" % i for i in items), items)
    ctx.sample({"entries": [list(i) for i in items]}, 1)


def pairs(ctx, ns, zname, followers):
    """Every size in this encoding, followed by something else: the boundary has to be found exactly"""
    run = Run(ctx)
    for n in ns:
        for kind in ("text", "rand", "zero"):
            if kind != "text" and n == 0:
                continue
            e = ("full", b"blob", content(kind, n, ctx.seed))
            for follow in followers:
                items = [(e, zname)] + [(f, "l6") for f in follow]
                run("pair/%s:%d:%s/%s" % (kind, n, zname, "+".join(follow) or "end"), items, deep=False)


def singles(ctx, ns, zname):
    """One pack holding entries of all the sizes"""
    run = Run(ctx)
    for kind in ("text", "rand"):
        for lo in range(0, len(ns), 50):
            items = [(("full", b"tree", content(kind, n)), zname) for n in ns[lo:lo + 50]]
            run("sizes/%s:%s/%d" % (kind, zname, ns[lo]), items, deep=False)


def large(ctx, n, kind, zname):
    run = Run(ctx)
    run("large/%s:%d:%s" % (kind, n, zname), [("small", "l6"), (("full", b"blob", content(kind, n)), zname), ("empty", "l6"), ("ofs", "l6")], deep=False)


def empty_pack(ctx):
    import os
    d = ctx.fresh_dir()
    with open(d + "/e.pack", "wb") as f:
        f.write(g.build_pack([]))

    def check():
        from gitdb.pack import PackFile
        expect_eq(list(PackFile(d + "/e.pack").stream_iter()), [], "walk of an empty pack")
    ctx.run("empty", check)


def units(tier, seed):
    quick = tier == "quick"
    out = [("empty", empty_pack, {})]
    enc = ["l6", "l0", "trail40", "lead1"] if quick else ["l6", "l0", "trail40", "lead1", "stored1", "m1"]
    for length in (1, 2, 3) if quick else (1, 2, 3, 4):
        parts = {3: 32, 4: 256}.get(length, 1)
        use = enc if length < 4 else enc[:3]
        if quick and length == 3:
            use = enc[:3]
        for part in range(parts):
            out.append(("seq-%d-%d" % (length, part), sequences, dict(length=length, encodings=use, part=part, parts=parts)))
    ns = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 100, 511, 512, 513, 4087, 4088, 4095, 4096, 4097, 4104, 8192, 12289, 20000]
    if not quick:
        ns = sorted(set(ns + list(range(4080, 4110)) + [2047, 2048, 8191, 8193, 16384, 65535, 65536, 131072]))
    followers = [(), ("empty",), ("one",), ("page",), ("zeros", "empty")]
    for zname in ZS:
        out.append(("pairs-" + zname, pairs, dict(ns=ns, zname=zname, followers=followers)))
        out.append(("sizes-" + zname, singles, dict(ns=list(range(0, 1101, 1 if zname in ("l6", "l0", "m1") or not quick else 7)) if quick
                                                    else list(range(0, 9001, 1 if zname in ("l6", "l0") else 13)), zname=zname)))
    for n in (4095999, 4096000, 4096001) if quick else (524287, 524288, 524289, 4095999, 4096000, 4096001, 9000000):
        for kind in ("rand", "zero"):
            for zname in ("l6", "l0", "trail40"):
                out.append(("large-%d-%s-%s" % (n, kind, zname), large, dict(n=n, kind=kind, zname=zname)))
    return out
