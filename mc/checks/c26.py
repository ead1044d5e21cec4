"""C26: descriptions and building blocks deliver what they were made of"""
import importlib
import itertools
import os
import shutil
from io import BytesIO

from mc import gitref as g
from mc import world
from mc.core import Violation, expect, expect_eq
from mc.dbcheck import release_maps
from mc.inputs import own_fds
from mc.world import Dir, NAMES

PROPERTY = "C26"
LEVEL = "model_checking"
TECHNIQUE = "explicit state exploration: all sequences of operations (assignments, reads, stores, accesses) up to a depth on the real input streams, buffers and lazy attributes against a dictionary model; all descriptions x all fields"
LEVEL_NOTE = "Every sequence up to the depth; every combination of the values for each kind of description; every object by every way to obtain its description."
RULE = ("Descriptions of each kind are made of all combinations of names, types, sizes, offsets, delta bases and streams: attributes, tuple positions, types as name and number, hexadecimal and binary names agree. "
        "Descriptions of each object of a directory, obtained through all databases, entities and iterators, agree with each other. Input streams: all sequences of assignments, reads and stores against a dictionary model. "
        "File buffers of all sizes around pages: all sequences of reads, seeks and slices. Lazy attributes: all sequences of accesses, assignments, deletions and failing providers. "
        "states: distinct model states; transitions: operations; traces: sequences.")
BOUNDS = {"quick": "input streams: 17 operations, depth 4; buffers: 12 operations, depth 3, 7 sizes x 4 kinds; lazy attributes: 11 operations, depth 5", "thorough": "depth 5, 4 and 6"}
CASE_TIMEOUT = 30

TYPES = {b"commit": 1, b"tree": 2, b"blob": 3, b"tag": 4}
SHAS = (b"\0" * 20, b"\xff" * 20, bytes(range(20)), NAMES[0])
SIZES = (0, 1, 255, 4096, (1 << 31) - 1, 1 << 31, (1 << 64) + 1)
OFFSETS = (0, 12, (1 << 31) - 1, 1 << 31, 1 << 40)


class Source:
    """Remembers what it is asked for"""

    def __init__(self, size=77):
        self.size, self.asked = size, []

    def read(self, size=-1):
        self.asked.append(size)
        return b"answer %d" % size


def check_read(o, s, what):
    expect(o.stream is s, "%s: stream is another one", what)
    del s.asked[:]
    expect_eq((o.read(), o.read(0), o.read(5), o.read(1 << 40), o.read(size=7)), tuple(b"answer %d" % n for n in (-1, 0, 5, 1 << 40, 7)), what + ": read")
    expect_eq(s.asked, [-1, 0, 5, 1 << 40, 7], what + ": forwarded requests")


def check_named(o, sha, what):
    from gitdb.util import to_bin_sha, to_hex_sha
    expect_eq((bytes(o.binsha), bytes(o.hexsha)), (sha, sha.hex().encode()), what + ": name")
    expect_eq((to_bin_sha(o.hexsha), to_bin_sha(o.binsha), to_hex_sha(o.binsha), to_hex_sha(o.hexsha)), (sha, sha, o.hexsha, o.hexsha), what + ": conversion of names")


def check_tuple(o, fields, what):
    expect_eq((tuple(o), len(o)), (fields, len(fields)), what + ": as a tuple")
    for i, f in enumerate(fields):
        expect(o[i] is f or o[i] == f, "%s: position %d", what, i)
    expect(o == fields and hash(o) == hash(fields) and not o != fields, "%s: compared with a tuple", what)
    same = type(o)(*fields)
    expect(o == same and hash(o) == hash(same), "%s: compared with an equal one", what)


def descriptions(ctx, first):
    b = importlib.import_module("gitdb.base")
    from gitdb.exc import BadObject

    def info(sha, typ, size):
        what = "OInfo%r" % ((sha.hex()[:6], typ, size),)
        o = b.OInfo(sha, typ, size)
        check_named(o, sha, what)
        expect_eq((o.type, o.type_id, o.size), (typ, TYPES[typ], size), what)
        check_tuple(o, (sha, typ, size), what)
        s = Source()
        o = b.OStream(sha, typ, size, s)
        check_named(o, sha, what)
        expect_eq((o.type, o.type_id, o.size), (typ, TYPES[typ], size), what + ": stream")
        check_tuple(o, (sha, typ, size, s), what)
        check_read(o, s, what)
        expect(b.OStream(*(b.OInfo(sha, typ, size) + (s,))) == o, "%s: made of an info", what)
        s = Source(size)
        o = b.ODeltaStream(sha, typ, None, s)
        check_named(o, sha, what)
        expect_eq((o.type, o.type_id, o.size), (typ, TYPES[typ], size), what + ": delta stream")
        check_read(o, s, what)
        s.size = size + 1
        expect_eq(o.size, size + 1, what + ": size of its stream")
        i = b.IStream(typ, size, s)
        expect_eq((i.binsha, i.type, i.size, i.error), (None, typ, size, None), what + ": input stream")
        check_read(i, s, what)
        i = b.IStream(typ, size, s, sha)
        check_named(i, sha, what)
        expect_eq((i.type, i.size, i.error), (typ, size, None), what + ": input stream")
        for cls in (b.InvalidOInfo, b.InvalidOStream):
            e = BadObject(sha)
            o = cls(sha, e)
            check_named(o, sha, what)
            expect(o.error is e and isinstance(o, b.InvalidOInfo), "%s: error", what)

    def packed(offset, tid, size, base):
        types = {v: k for k, v in TYPES.items()}
        types.update({6: "OFS_DELTA", 7: "REF_DELTA"})
        typ = types[tid]
        what = "OPackInfo%r" % ((offset, tid, size, base),)
        s = Source()
        for o, fields, stream in ((b.OPackInfo(offset, tid, size), (offset, tid, size), None), (b.OPackStream(offset, tid, size, s), (offset, tid, size, s), s),
                                  (b.ODeltaPackInfo(offset, tid, size, base), (offset, tid, size, base), None),
                                  (b.ODeltaPackStream(offset, tid, size, base, s), (offset, tid, size, base, s), s)):
            w = type(o).__name__ + what[9:]
            expect_eq((o.pack_offset, o.type, o.type_id, o.size), (offset, typ, tid, size), w)
            check_tuple(o, fields, w)
            if "Delta" in w:
                expect_eq(o.delta_info, base, w + ": delta_info")
                expect(isinstance(o, b.ODeltaPackInfo), "%s: no ODeltaPackInfo", w)
            if stream:
                check_read(o, s, w)
        expect(b.OPackStream(*(b.OPackInfo(offset, tid, size) + (s,))) == b.OPackStream(offset, tid, size, s), "%s: made of an info", what)
        expect(b.ODeltaPackStream(*(b.ODeltaPackInfo(offset, tid, size, base) + (s,))) == b.ODeltaPackStream(offset, tid, size, base, s), "%s: made of an info", what)
    if first == "info":
        for args in itertools.product(SHAS, TYPES, SIZES):
            ctx.run("info/%s/%s/%d" % (args[0].hex()[:4], args[1].decode(), args[2]), info, *args)
            ctx.distinct("states", args)
            ctx.count("transitions", 40)
            ctx.count("traces")
    else:
        for args in itertools.product(OFFSETS, (1, 2, 3, 4, 6, 7), SIZES, (None, 1, 1 << 33, NAMES[1])):
            ctx.run("packed/%d/%d/%d/%r" % args, packed, *args)
            ctx.distinct("states", args)
            ctx.count("transitions", 40)
            ctx.count("traces")
    ctx.sample({"descriptions": first}, 1)


# ---------------------------------------------------------------- the same object, however obtained
def obtained(ctx):
    from gitdb import IStream
    from gitdb.db import GitDB, LooseObjectDB, MemoryDB, PackedDB
    from gitdb.pack import PackEntity
    base = ctx.fresh_dir("o")

    def run(style, version):
        d = Dir(base + "/%s%d/objects" % (style, version)).create()
        d.add_pack("p", (0, 2, 3, 4), style, version)
        for i in range(5):
            d.add_loose(i)
        mem = MemoryDB()
        for n in NAMES:
            typ, data = world.known(n)
            i = IStream(typ, len(data), BytesIO(data))
            r = mem.store(i)
            expect_eq((i.binsha, i.hexsha, i.type, i.size, i.error, r is i), (n, n.hex().encode(), typ, len(data), None, True), "after storing")
        stem = d.path + "/pack/" + d.packs["p"][0]
        e = PackEntity(stem + ".pack")
        got = {}

        def note(o, how, sha=None):
            sha = sha or bytes(o.binsha)
            typ, data = world.known(sha)
            expect_eq((bytes(o.type), o.type_id, o.size), (typ, TYPES[typ], len(data)), how)
            check_named(o, sha, how)
            expect_eq((o[0], o[1]), (o.binsha, o.type), how + ": as a tuple")
            if hasattr(o, "read"):
                expect_eq(bytes(o.read()), data, how + ": content")
            got.setdefault(sha, set()).add(how)
        for name, db in (("git", GitDB(d.path)), ("loose", LooseObjectDB(d.path)), ("packed", PackedDB(d.path + "/pack")), ("memory", mem)):
            for sha in db.sha_iter():
                note(db.info(sha), name + " info", bytes(sha))
                note(db.stream(sha), name + " stream", bytes(sha))
        for sha in d.packs["p"][1]:
            note(e.info(sha), "entity info", sha)
            note(e.stream(sha), "entity stream", sha)
            i = e.index().sha_to_index(sha)
            note(e.info_at_index(i), "entity info at index", sha)
            note(e.stream_at_index(i), "entity stream at index", sha)
        for o in e.info_iter():
            note(o, "entity info_iter")
        for o in e.stream_iter():
            note(o, "entity stream_iter")
        # entries of the pack: what is said with and without a stream is the same
        p = e.pack()
        infos = {e.index().offset(i): (p.info(e.index().offset(i)), p.stream(e.index().offset(i))) for i in range(e.index().size())}
        for s in p.stream_iter():
            i, t = infos.pop(s.pack_offset)
            for x in (i, t):
                expect_eq((x.pack_offset, x.type, x.type_id, x.size), (s.pack_offset, s.type, s.type_id, s.size), "entry")
                if s.type_id > 5:
                    expect_eq(x.delta_info, s.delta_info, "base of an entry")
            expect_eq(bytes(t.read()), bytes(s.read()), "entry")
            expect_eq(type(s), type(t), "kind of an entry")
        expect_eq(infos, {}, "entries not enumerated")
        for sha in NAMES:
            expect(len(got[sha]) >= (12 if sha in d.packs["p"][1] else 6), "%s.. was obtained by %s only", sha.hex()[:8], sorted(got[sha]))
        ctx.count("transitions", sum(map(len, got.values())))
        del db, e, p, mem
        shutil.rmtree(base)
        release_maps()
    for style in ("full", "ofs", "ref"):
        for version in (1, 2):
            ctx.run("obtained/%s/%d" % (style, version), run, style, version)
            ctx.count("traces")


# ---------------------------------------------------------------- input streams
def istreams(ctx, depth, part, parts):
    from gitdb.base import IStream
    from gitdb.db import MemoryDB
    sources = [(b"blob", b"one"), (b"tag", b"another")]
    err = ValueError("x")
    FIELDS = ("binsha", "type", "size", "stream", "error")
    VALUES = {"binsha": (NAMES[0], None), "type": (b"tree", "commit"), "size": (0, 1 << 33), "stream": (0, 1), "error": (err, None)}
    ops = [(f, k) for f in FIELDS for k in (0, 1)] + [("at", 0), ("at", 1), ("at", 2), ("read", 2), ("read", -1), ("hex", 0), ("store", 0)]
    for n, seq in enumerate(itertools.product(ops, repeat=depth)):
        if n % parts != part:
            continue

        def run():
            streams = [BytesIO(d) for _, d in sources]
            model = dict(binsha=None, type=sources[0][0], size=len(sources[0][1]), stream=streams[0], error=None)
            i = IStream(model["type"], model["size"], model["stream"])
            for op, arg in seq:
                if op in FIELDS:
                    v = VALUES[op][arg]
                    v = streams[v] if op == "stream" else v
                    setattr(i, op, v)
                    model[op] = v
                elif op == "at":
                    i[arg] = model[FIELDS[arg]] = VALUES[FIELDS[arg]][0]
                elif op == "read":
                    pos = model["stream"].tell()
                    got = i.read(arg)
                    model["stream"].seek(pos)
                    expect_eq(got, model["stream"].read(arg), "read(%d)" % arg)
                elif op == "hex":
                    if model["binsha"]:
                        expect_eq(i.hexsha, model["binsha"].hex().encode(), "hexsha")
                elif op == "store":
                    rest = model["stream"].getvalue()[model["stream"].tell():]
                    if model["binsha"] is None and isinstance(model["type"], bytes) and model["size"] == len(rest):
                        db = MemoryDB()
                        expect(db.store(i) is i, "store returns something else")
                        model["binsha"] = g.obj_sha(model["type"], rest)
                        expect(db.has_object(model["binsha"]), "not stored")
                for k, f in enumerate(FIELDS):
                    expect(getattr(i, f) is model[f] or getattr(i, f) == model[f], "%s is %r, expected %r", f, getattr(i, f), model[f])
                    expect(i[k] is getattr(i, f), "position of %s", f)
                expect_eq(len(i), 5, "length")
                ctx.distinct("states", ("istream", model["binsha"], model["type"], model["size"], model["stream"] is streams[0], model["stream"].tell(), model["error"]))
        ctx.run("istream/" + ",".join("%s%d" % o for o in seq), run)
        ctx.count("transitions", depth)
        ctx.count("traces")


# ---------------------------------------------------------------- buffers
def buffers(ctx, kind, size, depth):
    """What file_contents_ro* and allocate_memory return"""
    from gitdb.util import allocate_memory, file_contents_ro, file_contents_ro_filepath
    base = ctx.fresh_dir("b")
    path = base + "/f"
    data = bytes((i * 7 + i // 256) & 255 for i in range(size))
    with open(path, "wb") as f:
        f.write(data)
    made = {
        "mapped": lambda: file_contents_ro_filepath(path), "read": lambda: file_contents_ro_filepath(path, allow_mmap=False),
        "stream": lambda: file_contents_ro_filepath(path, stream=True), "stream-read": lambda: file_contents_ro_filepath(path, stream=True, allow_mmap=False),
    }
    is_stream = kind.startswith("stream") or kind == "memory"

    def of_fd():
        fd = os.open(path, os.O_RDONLY)
        try:
            return file_contents_ro(fd, kind.startswith("stream"), not kind.endswith("read"))
        finally:
            os.close(fd)
    mid = size // 2
    access = [("len",), ("at", 0), ("at", -1), ("at", mid), ("slice", 0, size), ("slice", mid, mid + 3), ("slice", size, size + 5)]
    ops = access + ([("read", 1), ("read", size), ("read", 10 ** 6), ("seek", 0), ("seek", mid), ("tell",)] if is_stream else [])
    if kind == "memory":
        ops = [("read", 1), ("read", size + 1), ("seek", 0), ("seek", mid), ("tell",), ("write", 1), ("write", 3)]

    def run(seq, how):
        before = len(own_fds())
        content = bytearray(size) if kind == "memory" else bytearray(data)
        b = allocate_memory(size) if kind == "memory" else of_fd() if how else made[kind]()
        pos = 0
        for op, *a in seq:
            if op == "len":
                expect_eq(len(b), len(content), "length")
            elif op == "at":
                if content:
                    got = b[a[0]]
                    expect_eq(got if isinstance(got, int) else got[0], content[a[0]], "byte %d" % a[0])
            elif op == "slice":
                expect_eq(bytes(b[a[0]:a[1]]), bytes(content[a[0]:a[1]]), "slice")
            elif op == "read":
                expect_eq(bytes(b.read(a[0])), bytes(content[pos:pos + a[0]]), "read")
                pos = min(len(content), pos + a[0])
            elif op == "seek":
                b.seek(a[0])
                pos = a[0]
            elif op == "tell":
                expect_eq(b.tell(), pos, "tell")
            elif op == "write" and pos + a[0] <= size:
                b.write(b"w" * a[0])
                content[pos:pos + a[0]] = b"w" * a[0]
                pos += a[0]
            ctx.distinct("states", (kind, size, pos))
        if kind == "memory":
            b.seek(0)
            expect_eq(bytes(b.read(size + 1)), bytes(content), "content at the end")
        else:
            with open(path, "rb") as f:
                expect_eq(f.read(), data, "the file")
        if hasattr(b, "close"):
            b.close()
        del b
        expect_eq(len(own_fds()), before, "descriptors")
    for seq in itertools.product(ops, repeat=depth):
        for how in (0, 1) if kind != "memory" else (0,):
            ctx.run("buffer/%s/%d/%d/%s" % (kind, size, how, ",".join("".join(map(str, o)) for o in seq)), run, seq, how)
            ctx.count("transitions", depth)
            ctx.count("traces")
    shutil.rmtree(base)


# ---------------------------------------------------------------- lazy attributes
def lazy(ctx, depth, slots, part, parts):
    from gitdb.util import LazyMixin
    log = []

    class Base(LazyMixin):
        if slots:
            __slots__ = ("a", "b", "c", "fails")

        def _set_cache_(self, attr):
            log.append(attr)
            if self.fails:
                raise KeyError("provider fails")
            if attr == "a":
                self.a = object()
            elif attr in ("b", "c"):
                # both at once
                self.b, self.c = [attr], (attr,)
            else:
                super()._set_cache_(attr)
    ops = ("a", "b", "c", "set a", "set c", "del a", "del b", "fail", "work", "unknown", "has unknown")

    def run(seq):
        o = Base()
        o.fails = False
        model, failing = {}, False
        for op in seq:
            del log[:]
            if op in ("a", "b", "c"):
                asked = [] if op in model else [op]
                if failing and asked:
                    try:
                        getattr(o, op)
                    except KeyError:
                        pass
                    else:
                        raise Violation("%s: failure of the provider is not told" % op)
                else:
                    v = getattr(o, op)
                    if asked and op == "a":
                        model["a"] = v
                    elif asked:
                        model["b"], model["c"] = o.b, o.c
                        expect_eq((model["b"], model["c"]), ([op], (op,)), op)
                    expect(v is model[op] and getattr(o, op) is v, "%s is another object", op)
                expect_eq(log, asked, "%s: provided" % op)
            elif op.startswith("set"):
                model[op[-1]] = object()
                setattr(o, op[-1], model[op[-1]])
                expect_eq(log, [], op)
            elif op.startswith("del"):
                if op[-1] in model:
                    delattr(o, op[-1])
                    del model[op[-1]]
            elif op in ("fail", "work"):
                o.fails = failing = op == "fail"
            elif not failing:
                try:
                    expect(op == "unknown" or hasattr(o, "unknown") is False, "there is an unknown attribute")
                    if op == "unknown":
                        o.unknown
                        raise Violation("unknown attribute has a value")
                except AttributeError:
                    pass
                expect_eq(log, ["unknown"], op)
            ctx.distinct("states", ("lazy", slots, sorted(model), failing))
    for n, seq in enumerate(itertools.product(ops, repeat=depth)):
        if n % parts == part:
            ctx.run("lazy/%d/%s" % (slots, ",".join(seq)), run, seq)
            ctx.count("transitions", depth)
            ctx.count("traces")


def units(tier, seed):
    quick = tier == "quick"
    out = [("info", descriptions, dict(first="info")), ("packed", descriptions, dict(first="packed")), ("obtained", obtained, {})]
    parts = 8 if quick else 64
    for part in range(parts):
        out.append(("istream-%d" % part, istreams, dict(depth=4 if quick else 5, part=part, parts=parts)))
        for slots in (False, True):
            out.append(("lazy-%d-%d" % (slots, part), lazy, dict(depth=5 if quick else 6, slots=slots, part=part, parts=parts)))
    for kind in ("mapped", "read", "stream", "stream-read", "memory"):
        for size in (0, 1, 100, 4095, 4096, 4097, 20000):
            out.append(("buffer-%s-%d" % (kind, size), buffers, dict(kind=kind, size=size, depth=3 if quick else 4)))
    return out
