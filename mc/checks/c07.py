"""C07: written packs and indices are complete, valid git files"""
import itertools
import os
import subprocess
from io import BytesIO

from mc import gitref as g
from mc.core import expect, expect_eq
from mc.deltas import uniq, encode
from mc.fixtures import content
from mc.inputs import Reader, listing
from mc.checks.c05 import OFFSETS, UNIVERSE

PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of object sequences, options and defective inputs; everything written is parsed by an independent strict reader"
LEVEL_NOTE = ("Exhaustive within the sequences and options listed. The strict reader is independent of gitdb; git index-pack and verify-pack "
              "confirm it on a part of the packs where git is installed. Sequences hold distinct objects.")
RULE = ("Every sequence of distinct objects up to the bound x announced/unannounced count x list/iterator x with/without index x compression level, every "
        "defect (too few objects, content too short or too long, failing stream) at every position, through write_pack and create; all offset "
        "classes through the index writer. Non-trivial: distinct packs with at least one object, and distinct defects.")
BOUNDS = {"quick": "sequences of <=3 of 9 objects x 24 option combinations; sizes 0..300, 2047..2049, 2^15+-1, 4096000+-1",
          "thorough": "sequences of <=4 of 9 objects x 36 option combinations; sizes 0..2100, 4096000+-2, 8192001"}
CASE_TIMEOUT = 60

OBJS = [(b"blob", b""), (b"commit", b""), (b"blob", b"a"), (b"tree", b"x" * 15), (b"tag", b"y" * 16), (b"commit", content("text", 2047)),
        (b"tree", content("rand", 2048)), (b"blob", content("zero", 40000)), (b"blob", content("rand", 5000))]


def ostream(typ, data, pattern=None, name=None, size=None, **kw):
    from gitdb.base import OStream
    return OStream(name or g.obj_sha(typ, data), typ, len(data) if size is None else size, Reader(data, pattern, **kw))


class Sink:
    """Write functions record what they get; the return value must not be relied upon"""

    def __init__(self, ret=None):
        self.parts, self.ret = [], ret

    def write(self, data):
        self.parts.append(bytes(data))
        return len(data) if self.ret is None else self.ret

    def value(self):
        return b"".join(self.parts)


def check_pack_bytes(pack, objs):
    ents = g.parse_pack(pack)
    expect_eq([(g.TYPES.get(e["type_id"]), e["data"]) for e in ents], list(objs), "entries of the pack")
    return ents


def check_idx_bytes(idx, pack, objs):
    ents = g.parse_pack(pack)
    version, items, pack_sha = g.parse_idx(idx)
    expect_eq(version, 2, "index version")
    expect_eq(pack_sha, pack[-20:], "pack checksum in the index")
    expect_eq(items, sorted((g.obj_sha(t, d), e["crc"], e["offset"]) for (t, d), e in zip(objs, ents)), "index entries")


def options(levels):
    for count, how, idx, lvl in itertools.product(("none", "exact"), ("list", "tuple", "iter"), (True, False), levels):
        yield count, how, idx, lvl


def write(objs, count, how, idx, level, streams=None, announced=None):
    from gitdb.pack import PackEntity
    ss = [ostream(t, d) for t, d in objs] if streams is None else streams
    src = ss if how == "list" else tuple(ss) if how == "tuple" else (s for s in ss)
    pw, iw = Sink(), Sink()
    n = announced if announced is not None else (len(ss) if count == "exact" else None)
    r = PackEntity.write_pack(src, pw.write, iw.write if idx else None, object_count=n, zlib_compression=level)
    return r, pw.value(), iw.value()


def check_write(objs, count, how, idx, level, streams=None):
    (psha, isha), pack, index = write(objs, count, how, idx, level, streams)
    check_pack_bytes(pack, objs)
    expect_eq(psha, pack[-20:], "returned pack checksum")
    if idx:
        check_idx_bytes(index, pack, objs)
        expect_eq(isha, index[-20:], "returned index checksum")
    else:
        expect_eq((isha, index), (None, b""), "index although not wanted")


def sequences(ctx, length, levels, part, parts):
    for n, seq in enumerate(itertools.permutations(range(len(OBJS)), length)):
        if n % parts != part:
            continue
        objs = [OBJS[i] for i in seq]
        for o, (count, how, idx, lvl) in enumerate(options(levels)):
            if length > 2 and (o + n) % 4:
                continue                    # spread the options over the longer sequences
            cid = "write/%s/%s-%s-%s-%s" % (",".join(map(str, seq)), count, how, idx, lvl)
            ctx.run(cid, check_write, objs, count, how, idx, lvl)
            if objs:
                ctx.distinct("nontrivial", cid)
    ctx.sample({"objects": [(t.decode(), len(d)) for t, d in objs], "options": [count, how, idx, lvl]}, 1)


def check_entity(entity, d, objs, names=None):
    """The returned entity reads and verifies everything, now and when opened anew"""
    from gitdb.pack import PackEntity
    for e in (entity, PackEntity(entity.pack().path()), PackEntity(entity.index().path())):
        expect_eq((e.pack().size(), e.index().size()), (len(objs), len(objs)), "sizes")
        for t, data in objs:
            name = g.obj_sha(t, data)
            i = e.info(name)
            expect_eq((i.type, i.size), (t, len(data)), "info")
            expect_eq(bytes(e.stream(name).read()), data, "content")
            for crc in (True, False):
                expect(e.is_valid_stream(name, use_crc=crc) is True, "intact object is not valid (use_crc=%s)", crc)
        expect_eq(sorted(bytes(i.binsha) for i in e.info_iter()), sorted(g.obj_sha(t, x) for t, x in objs), "iteration")
        expect_eq(bytes(e.pack().checksum()), bytes(e.index().packfile_checksum()), "checksums")


def check_create(d, objs, count, how, level, before=(), streams=None):
    from gitdb.pack import PackEntity
    ss = [ostream(t, x) for t, x in objs] if streams is None else streams
    src = ss if how == "list" else (s for s in ss)
    e = PackEntity.create(src, d, object_count=len(ss) if count == "exact" else None, zlib_compression=level)
    ours = sorted(set(listing(d)) - set(before))
    packs = [n for n in ours if n.endswith(".pack")]
    expect_eq(len(packs), 1, "number of packs in %r" % ours)
    with open(os.path.join(d, packs[0]), "rb") as f:
        pack = f.read()
    stem = "pack-" + pack[-20:].hex()
    expect_eq(ours, [stem + ".idx", stem + ".pack"], "files created")
    with open(os.path.join(d, stem + ".idx"), "rb") as f:
        idx = f.read()
    check_pack_bytes(pack, objs)
    check_idx_bytes(idx, pack, objs)
    expect_eq(os.path.realpath(e.pack().path()), os.path.realpath(os.path.join(d, stem + ".pack")), "path of the entity")
    check_entity(e, d, objs)
    return pack, stem


def creates(ctx, length, part, parts):
    """Everything through create, each in its own directory"""
    has_git = not subprocess.run(["which", "git"], capture_output=True).returncode
    for n, seq in enumerate(itertools.permutations(range(len(OBJS)), length)):
        if n % parts != part:
            continue
        objs = [OBJS[i] for i in seq]
        d = ctx.fresh_dir()
        opt = [("none", "list", 1), ("exact", "iter", 9), ("none", "iter", 0), ("exact", "list", -1)][n % 4]
        cid = "create/%s/%s-%s-%s" % ((",".join(map(str, seq)),) + opt)
        r = ctx.run(cid, check_create if objs else check_create_empty, d, objs, *opt)
        if objs:
            ctx.distinct("nontrivial", cid)
        if r and has_git and n % 3 == 0:
            p = subprocess.run(["git", "verify-pack", "-v", os.path.join(d, r[1] + ".idx")], capture_output=True, text=True,
                               env=dict(os.environ, GIT_CONFIG_NOSYSTEM="1", HOME=d))

            def by_git():
                expect(p.returncode == 0, "git verify-pack: %s", p.stderr)
                got = {tuple(l.split()[:3]) for l in p.stdout.splitlines() if len(l) > 40 and l[40] == " "}
                expect_eq(got, {(g.obj_sha(t, x).hex(), t.decode(), str(len(x))) for t, x in objs}, "as seen by git")
            ctx.run(cid + "/git", by_git)
            ctx.count("packs_verified_by_git")


def check_create_empty(d, objs, count, how, level):
    """git has no use for an empty pack. Whatever is written has to be well-formed"""
    from gitdb.pack import PackEntity
    e = PackEntity.create([], d, zlib_compression=level)
    names = listing(d)
    expect_eq(len(names), 2, "files")
    with open(e.pack().path(), "rb") as f:
        expect_eq(g.parse_pack(f.read()), [], "entries")
    expect_eq(e.index().size(), 0, "index size")


def together(ctx):
    """Several packs in one directory, created twice, special directory names"""
    for name in ("plain", "with space", "a[b]c*?", "ünicode", "pack"):
        d = os.path.join(ctx.fresh_dir(), name)
        os.mkdir(d)
        for k, seq in enumerate(([0, 1], [2], [3, 4, 5], [8], [0, 1], [2])):
            objs = [OBJS[i] for i in seq]
            before = listing(d)

            def again():
                from gitdb.pack import PackEntity
                if k < 4:
                    check_create(d, objs, "none", "list", 1, before)
                else:
                    content_before = {n: open(os.path.join(d, n), "rb").read() for n in before}
                    e = PackEntity.create([ostream(*o) for o in objs], d)
                    check_entity(e, d, objs)
                    expect_eq(listing(d), before, "files after creating the same pack again")
                    for n, c in content_before.items():
                        with open(os.path.join(d, n), "rb") as f:
                            expect_eq(f.read(), c, "content of %s" % n)
            ctx.run("together/%s/%d" % (name, k), again)


def sizes(ctx, ns, kind, pattern):
    """One object of every size between two others, with sources that answer what they like"""
    for n in ns:
        objs = [(b"blob", b"first"), (b"tree", content(kind, n, ctx.seed)), (b"tag", b"last")]
        for lvl in (0, 1, 9):
            ctx.run("sizes/%s/%s/%d/l%d" % (kind, pattern, n, lvl), lambda: check_write(
                objs, "exact", "iter", True, lvl, [ostream(t, d, pattern) for t, d in objs]))
        ctx.distinct("nontrivial", ("size", n, kind, pattern))


def sources(ctx):
    """Objects obtained from every kind of database, deltas included"""
    from gitdb.base import IStream
    from gitdb.db import LooseObjectDB, MemoryDB, PackedDB, GitDB
    root = ctx.fresh_dir()
    os.mkdir(root + "/pack")
    base = content("text", 3000)
    ents = [g.E("full", b"blob", base), g.E("ofs", data=encode([("c", 100, 2000), ("i", b"new")], 3000), base=0),
            g.E("ref", data=encode([("i", b"z"), ("c", 0, 2003)], 2003), base=1)]
    g.write_pack(root + "/pack", ents)
    loose, mem = LooseObjectDB(root), MemoryDB()
    objs = [(e.typ, e.result) for e in ents]
    for t, d in OBJS:
        for db in (loose, mem):
            db.store(IStream(t, len(d), BytesIO(d)))
    pdb, gdb = PackedDB(root + "/pack"), GitDB(root)
    for name, db, os_ in (("loose", loose, OBJS), ("mem", mem, OBJS), ("pack", pdb, objs), ("git", gdb, OBJS + objs)):
        for count, how, idx, lvl in options((1, 6)):
            ctx.run("sources/%s/%s-%s-%s-%s" % (name, count, how, idx, lvl), lambda: check_write(
                os_, count, how, idx, lvl, [db.stream(g.obj_sha(t, d)) for t, d in os_]))
            ctx.distinct("nontrivial", (name, count, how, idx, lvl))
        d = ctx.fresh_dir()
        ctx.run("sources/%s/create" % name, lambda: check_create(d, os_, "none", "iter", 1, streams=[db.stream(g.obj_sha(t, x)) for t, x in os_]))


def defects(ctx, length, use):
    """Too few objects, content not matching its size, failing streams: nothing may become visible"""
    from gitdb.pack import PackEntity
    pool = [OBJS[2], OBJS[4], OBJS[8], OBJS[0]][:length]

    def bad_streams(pos, what):
        out = []
        for i, (t, d) in enumerate(pool):
            if i != pos:
                out.append(ostream(t, d))
            elif what == "short":
                out.append(ostream(t, d, size=len(d) + 1))
            elif what == "muchshort":
                out.append(ostream(t, d, size=len(d) + 5000000))
            elif what == "long":
                out.append(ostream(t, d + b"!", size=len(d)))
            elif what == "muchlong":
                out.append(ostream(t, d + b"!" * 5000000, size=len(d)))
            elif what == "empty":
                out.append(ostream(t, b"", size=max(1, len(d))))
            elif what == "fails":
                out.append(ostream(t, d, fail_at=len(d) // 2))
            elif what == "failsend":
                out.append(ostream(t, d, fail_at=len(d)))
            elif what == "dribbleshort":
                out.append(ostream(t, d, size=len(d) + 1, pattern=(1,)))
        return out

    def must_fail(make, count, how):
        d = ctx.fresh_dir()
        keep = os.path.join(d, "pack-other.pack")
        with open(keep, "wb") as f:
            f.write(b"something else")
        ss = make()
        src = ss if how == "list" else iter(ss)
        n = {"none": None, "exact": len(pool), "more": len(pool) + 1, "muchmore": 1000}[count]
        fds = len(os.listdir("/proc/self/fd"))
        try:
            if use == "create":
                r = PackEntity.create(src, d, object_count=n)
            else:
                pw, iw = Sink(), Sink()
                r = PackEntity.write_pack(src, pw.write, iw.write, object_count=n)
        except Exception:
            pass
        else:
            expect(False, "succeeded with %r in place of raising", r)
        expect_eq(listing(d), ["pack-other.pack"], "files after the failure")
        expect_eq(len(os.listdir("/proc/self/fd")), fds, "open descriptors after the failure")
    for what in ("short", "muchshort", "long", "muchlong", "empty", "fails", "failsend", "dribbleshort"):
        for pos in range(length):
            for count in ("none", "exact"):
                for how in ("list", "iter"):
                    cid = "defect/%s/%s@%d/%s/%s/%d" % (use, what, pos, count, how, length)
                    ctx.distinct("nontrivial", cid)
                    ctx.run(cid, must_fail, lambda: bad_streams(pos, what), count, how)
    for count in ("more", "muchmore"):
        for how in ("list", "iter"):
            cid = "defect/%s/%s/%s/%d" % (use, count, how, length)
            ctx.distinct("nontrivial", cid)
            ctx.run(cid, must_fail, lambda: bad_streams(None, None), count, how)

    def iterator_fails(at):
        def gen():
            for i, (t, d) in enumerate(pool):
                if i == at:
                    raise KeyError("iterator")
                yield ostream(t, d)
            raise KeyError("iterator")
        return gen()
    for at in range(length + 1):
        for count in ("none", "exact") if at < length else ("none",):
            cid = "defect/%s/iterator@%d/%s/%d" % (use, at, count, length)
            ctx.distinct("nontrivial", cid)
            ctx.run(cid, must_fail, lambda: iterator_fails(at), count, "iter")


def index_writer(ctx, count, part, parts):
    """The index writer for positions no test can afford to reach with real data"""
    try:
        from gitdb.pack import IndexWriter
    except ImportError:
        ctx.notes["IndexWriter"] = "not there"
        return
    names = [UNIVERSE[i] for i in (12, 0, 13, 11)][:count]

    def check(combo):
        w = IndexWriter()
        items = [(x, (0xffffffff, 0, 0x80000000, 1)[j], o) for j, (x, o) in enumerate(zip(names, combo))]
        for it in items:
            w.append(*it)
        s = Sink()
        sha = w.write(b"p" * 20, s.write)
        version, got, psha = g.parse_idx(s.value())
        expect_eq((version, got, psha, sha), (2, sorted(items), b"p" * 20, s.value()[-20:]), "index")
    for n, combo in enumerate(itertools.product(OFFSETS, repeat=count)):
        if n % parts == part:
            ctx.run("indexwriter/" + "-".join("%x" % o for o in combo), check, combo)
            ctx.distinct("nontrivial", combo)


def fewer(ctx):
    """Fewer objects announced than there are: either refused, or a proper pack of that many objects"""
    from gitdb.pack import PackEntity
    objs = OBJS[:5]

    def check(n, how, use):
        ss = [ostream(t, d) for t, d in objs]
        d = ctx.fresh_dir()
        pw, iw = Sink(), Sink()
        try:
            if use == "write":
                PackEntity.write_pack(iter(ss) if how == "iter" else ss, pw.write, iw.write, object_count=n)
            else:
                e = PackEntity.create(iter(ss) if how == "iter" else ss, d, object_count=n)
        except Exception:
            expect_eq(listing(d), [], "files")
            return
        if use == "write":
            check_pack_bytes(pw.value(), objs[:n])
            check_idx_bytes(iw.value(), pw.value(), objs[:n])
        else:
            check_entity(e, d, objs[:n])
    for n in range(1, len(objs)):
        for how in ("list", "iter"):
            for use in ("write", "create"):
                ctx.run("fewer/%d/%s/%s" % (n, how, use), check, n, how, use)


def many(ctx, n):
    objs = [(b"blob", b"object %d" % i) for i in range(n)]
    for count, how in (("none", "iter"), ("exact", "iter")):
        ctx.run("many/%d/%s" % (n, count), check_write, objs, count, how, True, 1)
        ctx.distinct("nontrivial", ("many", n, count))


def units(tier, seed):
    quick = tier == "quick"
    out = []
    levels = (-1, 0, 9) if quick else (-1, 0, 1, 6, 9)
    for length in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4):
        parts = {3: 4, 4: 24}.get(length, 1)
        for part in range(parts):
            out.append(("seq-%d-%d" % (length, part), sequences, dict(length=length, levels=levels, part=part, parts=parts)))
            out.append(("create-%d-%d" % (length, part), creates, dict(length=length, part=part, parts=parts)))
    out.append(("together", together, {}))
    out.append(("sources", sources, {}))
    out.append(("fewer", fewer, {}))
    big = [4095999, 4096000, 4096001] if quick else [4095998, 4095999, 4096000, 4096001, 4096002, 8192001]
    small = list(range(0, 301)) if quick else list(range(0, 2101))
    for kind in ("rand", "zero"):
        for pattern in (None, (1,), (7, 1000)):
            out.append(("sizes-%s-%s" % (kind, pattern), sizes, dict(ns=small + [2047, 2048, 2049, 32767, 32768, 32769], kind=kind, pattern=pattern)))
        out.append(("big-%s" % kind, sizes, dict(ns=big, kind=kind, pattern=None)))
        out.append(("bigshort-%s" % kind, sizes, dict(ns=big, kind=kind, pattern=(4096000, 100000))))
    for length in (1, 2, 3, 4):
        for use in ("create", "write"):
            out.append(("defects-%s-%d" % (use, length), defects, dict(length=length, use=use)))
    for part in range(4):
        out.append(("indexwriter-%d" % part, index_writer, dict(count=3 if quick else 4, part=part, parts=4)))
    for n in (255, 256, 257, 1000) if quick else (255, 256, 257, 1000, 20000):
        out.append(("many-%d" % n, many, dict(n=n)))
    return out
