"""C01: stored objects are canonical git objects and read back exactly"""
import itertools
import os
import subprocess
import zlib
from io import BytesIO

from mc import gitref as g
from mc.core import expect, expect_eq, Violation
from mc.fixtures import content, ZS
from mc.inputs import Reader, listing, loose_path

PROPERTY = "C01"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of inputs and of operation histories (explicit state: dictionary model) on the real code"
LEVEL_NOTE = ("Exhaustive within the stated bounds on the real code; sizes and contents outside of the listed classes are not covered. Trusts the reference encoder mc/gitref.py, cross-checked with git where installed.")
RULE = ("Inputs: every type x size x content class x copy chunk size x answer pattern of the input stream x database kind, each stored "
        "and compared with an independent encoder/decoder through every query and on disk. Histories: every sequence up to the "
        "depth over {store (fresh/short reads), raw store, redirected store} x 3 objects, full comparison with a dictionary model after "
        "every operation. Non-trivial: distinct combinations with non-empty content, and distinct histories of more than one operation.")
BOUNDS = {"quick": "sizes 0..20, 8192+-20, 64Ki+-1, 4096000+-1, 2^31+5, 2^32+5 (redirected); histories of depth 3 over 15 operations; encoded objects in 19 encodings",
          "thorough": "sizes 0..300, 8192+-40, 64Ki+-2, 4096000+-2, 3*4096000+1, 2^31-1, 2^31+5, 2^32-1, 2^32+5; histories of depth 4 over 15 operations"}
CASE_TIMEOUT = 60

ABSENT = bytes(range(20))


def check_loose_dir(root, model, what):
    """root contains exactly the objects of model {sha: (type, data, raw or None)}, as canonical files"""
    names = listing(root)
    expect_eq(names, sorted(loose_path(s) for s in model), what + ": files in the objects directory")
    for sha, (typ, data, raw) in model.items():
        p = os.path.join(root, loose_path(sha))
        with open(p, "rb") as f:
            b = f.read()
        try:
            got = g.parse_loose(b)
        except (g.FormatError, zlib.error, ValueError) as e:
            raise Violation("%s: object file is not canonical: %s" % (what, e))
        expect_eq(got, (typ, data), what + ": decoded object file")
        if raw is not None:
            expect_eq(b, raw, what + ": verbatim object file")
        expect_eq(oct(os.stat(p).st_mode & 0o7777), "0o444", what + ": mode of the object file")


def check_queries(db, model, what, known=()):
    from gitdb.exc import BadObject
    for sha, (typ, data, raw) in model.items():
        expect(db.has_object(sha) is True, "%s: has_object", what)
        expect(sha in db, "%s: in", what)
        i = db.info(sha)
        expect_eq((bytes(i.binsha), bytes(i.type), i.size), (sha, typ, len(data)), what + ": info")
        expect_eq(i.hexsha, sha.hex().encode(), what + ": hexsha of info")
        expect_eq(i.type_id, g.TYPE_IDS[typ], what + ": type_id of info")
        s = db.stream(sha)
        expect_eq((bytes(s.binsha), bytes(s.type), s.size), (sha, typ, len(data)), what + ": stream")
        expect_eq(bytes(s.read()), data, what + ": content")
        if len(data) < 50000:
            s = db.stream(sha)
            got = b"".join(iter(lambda: bytes(s.read(4096)), b""))
            expect_eq(got, data, what + ": content in pieces")
    expect_eq(sorted(bytes(s) for s in db.sha_iter()), sorted(model), what + ": sha_iter")
    expect_eq(db.size(), len(model), what + ": size")
    for sha in list(known) + [ABSENT]:
        if sha in model:
            continue
        expect(db.has_object(sha) is False, "%s: has_object of an absent object", what)
        expect(sha not in db, "%s: in of an absent object", what)
        for fn in (db.info, db.stream):
            try:
                fn(sha)
            except BadObject:
                pass
            else:
                raise Violation("%s: %s of an absent object did not raise BadObject" % (what, fn.__name__))


def make_db(kind, root, chunk=None):
    from gitdb.db import LooseObjectDB, MemoryDB, GitDB
    if kind == "mem":
        return MemoryDB()
    if kind == "git":
        os.makedirs(os.path.join(root, "pack"), exist_ok=True)
        db = GitDB(root)
        return db
    db = LooseObjectDB(root)
    if chunk:
        db.stream_chunk_size = chunk
    return db


def one_store(ctx, kind, typ, data, chunk, pattern, as_str):
    from gitdb.base import IStream
    root = ctx.fresh_dir()
    db = make_db(kind, root, chunk)
    sha = g.obj_sha(typ, data)
    rd = Reader(data, pattern)
    ist = IStream(typ.decode() if as_str else typ, len(data), rd)
    expect(ist.binsha is None, "a fresh IStream has a name")
    res = db.store(ist)
    expect(res is ist, "store does not return the input stream")
    expect_eq(bytes(ist.binsha), sha, "binsha")
    expect_eq(bytes(ist.hexsha), sha.hex().encode(), "hexsha")
    model = {sha: (typ, data, None)}
    if kind != "mem":
        check_loose_dir(root, model, "after store")
    if not (kind == "mem" and as_str):
        check_queries(db, model, "after store")
        check_queries(make_db(kind, root), model, "new instance") if kind != "mem" else None
    return root


def inputs(ctx, kind, typ, sizes, classes, chunks, patterns, strs=(False,)):
    for size in sizes:
        for cls in classes:
            data = content(cls, size, ctx.seed)
            for chunk in chunks:
                if chunk is not None and size / chunk > 3000:
                    continue
                for pattern in patterns:
                    if pattern and size / (sum(pattern) / len(pattern)) > 20000:
                        continue
                    for as_str in strs:
                        cid = "store/%s/%s/%d/%s/chunk=%s/reads=%s%s" % (
                            kind, typ.decode(), size, cls, chunk, pattern, "/str" if as_str else "")
                        ctx.run(cid, one_store, ctx, kind, typ, data, chunk, pattern, as_str)
                        if size:
                            ctx.distinct("nontrivial", cid)
    ctx.sample({"last case": cid}, 1)


# ------------------------------------------------------------------ histories
def objects(seed):
    return [(b"blob", b""), (b"commit", b"tree 0\n\nmessage \0 with nul"), (b"blob", content("mix", 20000, seed))]


OPS = [(op, i) for op in ("store", "short", "raw", "redirect", "redirectz") for i in range(3)]


def history(ctx, kind, seq, objs):
    from gitdb.base import IStream
    from gitdb.stream import Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter
    root = ctx.fresh_dir()
    db = make_db(kind, root)
    model = {}
    names = [g.obj_sha(*o) for o in objs]
    for n, (op, i) in enumerate(seq):
        what = "op %d (%s %d)" % (n, op, i)
        typ, data = objs[i]
        sha = names[i]
        before = {}
        for s in model:
            if kind != "mem":
                st = os.stat(os.path.join(root, loose_path(s)))
                before[s] = (st.st_ino, st.st_mtime_ns, st.st_size)
        if op in ("store", "short"):
            r = db.store(IStream(typ, len(data), Reader(data, (5, 1000) if op == "short" else None)))
            expect_eq(bytes(r.binsha), sha, what + ": name")
            model.setdefault(sha, (typ, data, None))
        elif op == "raw":
            # another encoder than the one gitdb uses
            comp = ZS["l9"](g.canonical(typ, data))
            r = db.store(IStream(typ, len(data), Reader(comp, (3000,)), sha))
            expect_eq(bytes(r.binsha), sha, what + ": name")
            model.setdefault(sha, (typ, data, comp))
        else:
            if kind == "mem":
                continue
            sink = bytearray()
            if op == "redirect":
                w = FlexibleSha1Writer(sink.extend) if i else Sha1Writer()
            else:
                w = ZippedStoreShaWriter()
            prev = db.set_ostream(w)
            expect(prev is None, "%s: previous stream", what)
            expect(db.ostream() is w, "%s: ostream", what)
            r = db.store(IStream(typ, len(data), Reader(data, (777,))))
            expect_eq(bytes(r.binsha), sha, what + ": name")
            expect(db.set_ostream(None) is w, "%s: set_ostream(None)", what)
            expect(db.ostream() is None, "%s: ostream after reset", what)
            raw = g.canonical(typ, data)
            if op == "redirectz":
                w.close()
                expect_eq(zlib.decompress(w.getvalue()), raw, what + ": redirected data")
            elif i:
                expect_eq(bytes(sink), raw, what + ": redirected data")
            expect_eq(bytes(w.sha(as_hex=False)), sha, what + ": sha of the writer")
        for s, b in before.items():
            st = os.stat(os.path.join(root, loose_path(s)))
            expect_eq((st.st_ino, st.st_mtime_ns, st.st_size), b, what + ": file of an object stored before")
        if kind != "mem":
            check_loose_dir(root, model, what)
        check_queries(db, model, what, names)
        ctx.count("transitions")
    if kind != "mem":
        check_queries(make_db(kind, root), model, "new instance", names)


def histories(ctx, kind, first, depth):
    objs = objects(ctx.seed)
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        cid = "history/%s/%s" % (kind, ",".join("%s%d" % o for o in seq))
        ctx.run(cid, history, ctx, kind, seq, objs)
        ctx.distinct("nontrivial", cid)
    ctx.sample({"history": ["%s %d" % o for o in seq], "database": kind}, 1)


# ------------------------------------------------------------------ sources that are other databases, and git itself
def copy_chain(ctx, typ, data):
    """loose -> memory -> repository -> loose, feeding the streams of one database to the next"""
    from gitdb.base import IStream
    sha = g.obj_sha(typ, data)
    dbs = [make_db("loose", ctx.fresh_dir()), make_db("mem", None), make_db("git", ctx.fresh_dir()),
           make_db("loose", ctx.fresh_dir(), 100)]
    src = IStream(typ, len(data), BytesIO(data))
    for db in dbs:
        r = db.store(IStream(src.type, src.size, src))
        expect_eq(bytes(r.binsha), sha, "name after copying")
        check_queries(db, {sha: (typ, data, None)}, "copy")
        src = db.stream(sha)


def with_git(ctx, objs):
    """git itself reads what was stored"""
    root = ctx.fresh_dir()
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM="1", HOME=root)
    try:
        subprocess.run(["git", "init", "-q", "--bare", root + "/r.git"], check=True, env=env, capture_output=True)
    except (OSError, subprocess.CalledProcessError):
        ctx.notes["git"] = "not available"
        return
    from gitdb.base import IStream
    from gitdb.db import GitDB
    db = GitDB(root + "/r.git/objects")
    for typ, data in objs:
        db.store(IStream(typ, len(data), BytesIO(data)))
    q = "".join(g.obj_sha(*o).hex() + "\n" for o in objs).encode()
    r = subprocess.run(["git", "--git-dir", root + "/r.git", "cat-file", "--batch"], input=q, env=env,
                       capture_output=True)
    want = b"".join(g.obj_sha(*o).hex().encode() + b" " + o[0] + b" %d\n" % len(o[1]) + o[1] + b"\n" for o in objs)
    expect_eq(r.stdout, want, "git cat-file --batch")
    ctx.count("checked_by_git", len(objs))
    # and the other way round
    for typ, data in objs:
        h = subprocess.run(["git", "--git-dir", root + "/r.git", "hash-object", "-w", "--stdin"], input=data + b"x",
                           env=env, capture_output=True).stdout.strip()
        s = db.stream(bytes.fromhex(h.decode()))
        expect_eq((s.type, bytes(s.read())), (b"blob", data + b"x"), "object written by git")


def misc(ctx):
    for cls in ("rand", "text", "zero"):
        for size in (0, 1, 8180, 8192, 30000, 100001):
            for typ in g.TYPE_IDS:
                cid = "copychain/%s/%s/%d" % (typ.decode(), cls, size)
                ctx.run(cid, copy_chain, ctx, typ, content(cls, size, ctx.seed))
                ctx.distinct("nontrivial", cid)
    ctx.run("git", with_git, ctx, [(b"blob", content(c, n, ctx.seed)) for c in ("rand", "text") for n in
                                   (0, 1, 100, 8183, 8184, 8192, 70000, 4096001)])


# ------------------------------------------------------------------ objects given in encoded form
ENCODINGS = dict(ZS, stored1e=lambda data: g.stored_blocks(data, 1, 10), emptyfirst=lambda data: g.stored_blocks(data, 100, 0)[:2] + b"\0\0\0\xff\xff" * 5000 + g.stored_blocks(data, 100, 0)[2:])


def encoded(ctx, kind, typ, sizes):
    """As the bytes to be stored are given, they can be many more than the content"""
    from gitdb.base import IStream

    def case(data, zname, chunk, pattern):
        comp = ENCODINGS[zname](g.canonical(typ, data))
        sha = g.obj_sha(typ, data)
        root = ctx.fresh_dir()
        db = make_db(kind, root, chunk)
        r = db.store(IStream(typ, len(data), Reader(comp, pattern), sha))
        expect_eq(bytes(r.binsha), sha, "name")
        model = {sha: (typ, data, comp)}
        check_queries(db, model, "encoded")
        if kind != "mem":
            check_loose_dir(root, model, "encoded")
            check_queries(make_db(kind, root), model, "new instance")
    for size in sizes:
        for cls in ("zero", "rand"):
            data = content(cls, size, ctx.seed)
            for zname in ENCODINGS:
                if size > 20000 and zname in ("stored1", "stored1e", "full7"):
                    continue
                for chunk in (None, 7, 4096) if kind == "loose" and size < 3000 else (None,):
                    for pattern in (None, (1000, 1), (1,)) if size < 3000 else (None, (10000, 1)):
                        cid = "encoded/%s/%s/%d/%s/%s/chunk=%s/reads=%s" % (kind, typ.decode(), size, cls, zname, chunk, pattern)
                        ctx.run(cid, case, data, zname, chunk, pattern)
                        ctx.distinct("nontrivial", cid)
    ctx.sample({"last case": cid}, 1)


# ------------------------------------------------------------------ more than 2 GiB, more than 4 GiB
class Endless:
    """a source which repeats one block up to a size, without ever holding the content"""
    BLOCK = bytes(range(251)) * 16384

    def __init__(self, size):
        self.left = size
        self.pos = 0

    def read(self, n=-1):
        b = self.BLOCK
        k = min(self.left, len(b) - self.pos, n if n >= 0 else len(b))
        r = b[self.pos:self.pos + k]
        self.pos = (self.pos + k) % len(b)
        self.left -= k
        return r


def giant(ctx, kind, size):
    """kind: redirect, loose, git"""
    import hashlib
    from gitdb.base import IStream
    from gitdb.stream import Sha1Writer
    h = hashlib.sha1(b"blob %d\0" % size)
    src = Endless(size)
    for d in iter(lambda: src.read(1 << 20), b""):
        h.update(d)
    root = ctx.fresh_dir()
    db = make_db("loose" if kind == "redirect" else kind, root)
    if kind == "redirect":
        db.set_ostream(Sha1Writer())
    r = db.store(IStream(b"blob", size, Endless(size)))
    expect_eq(r.hexsha, h.hexdigest().encode(), "name")
    if kind == "redirect":
        expect_eq(listing(root), [], "files")
        return
    expect_eq(listing(root), [loose_path(h.digest())], "files")
    i = db.info(r.binsha)
    expect_eq((i.type, i.size), (b"blob", size), "info")
    s = db.stream(r.binsha)
    expect_eq((s.type, s.size), (b"blob", size), "stream")
    src = Endless(size)
    done = 0
    while done < size:
        want = src.read(1 << 20)
        got = s.read(len(want))
        if got != want:
            raise Violation("content at %d differs (%d bytes for %d)" % (done, len(got), len(want)))
        done += len(want)
    expect_eq(s.read(1), b"", "read at the end")


def giants(ctx, kind, sizes):
    ctx.arm(300)
    for size in sizes:
        cid = "giant/%s/%d" % (kind, size)
        ctx.run(cid, giant, ctx, kind, size)
        ctx.distinct("nontrivial", cid)


def units(tier, seed):
    quick = tier == "quick"
    types = list(g.TYPE_IDS)
    pats = [None, (1,), (3, 1, 7), (100, 1)]
    out = []
    small = list(range(0, 21)) + [127, 128, 255, 256] if quick else list(range(0, 300))
    r = 20 if quick else 40
    mid = list(range(8192 - r, 8192 + r // 2)) + [16384, 20000]
    large = [65534, 65535, 65536, 65537, 100000]
    huge = [4096000 - 1, 4096000, 4096001] + ([] if quick else [4096000 * 3 + 1])
    for kind in ("loose", "git", "mem"):
        chunks = [None] if kind != "loose" else [None, 1, 2, 7, 10, 4096, 8192]
        for typ in types:
            out.append(("small-%s-%s" % (kind, typ.decode()), inputs,
                        dict(kind=kind, typ=typ, sizes=small, classes=("rand", "zero"), chunks=chunks, patterns=pats, strs=(False, True))))
            out.append(("mid-%s-%s" % (kind, typ.decode()), inputs,
                        dict(kind=kind, typ=typ, sizes=mid, classes=("rand", "text"),
                             chunks=[None] if kind != "loose" else [None, 7, 4096, 8192], patterns=[None, (100, 1)])))
        out.append(("large-%s" % kind, inputs, dict(kind=kind, typ=b"blob", sizes=large, classes=("rand", "text", "zero", "mix"),
                                                    chunks=[None] if kind != "loose" else [None, 4096, 65536],
                                                    patterns=[None, (1000, 1, 50000)])))
        for cls in ("rand", "text"):
            out.append(("huge-%s-%s" % (kind, cls), inputs, dict(kind=kind, typ=b"tree", sizes=huge, classes=(cls,),
                                                                 chunks=[None] if kind != "loose" else [None, 1 << 20, 4096000 - 1],
                                                                 patterns=[None, (65536,)])))
        for op in OPS:
            if kind == "mem" and op[0].startswith("redirect"):
                continue
            out.append(("history-%s-%s%d" % ((kind,) + op), histories, dict(kind=kind, first=op, depth=3 if quick else 4)))
        for typ in types:
            out.append(("encoded-%s-%s" % (kind, typ.decode()), encoded, dict(kind=kind, typ=typ, sizes=(0, 1, 100, 1500, 9000, 70000) if quick else (0, 1, 2, 20, 100, 1500, 8180, 8192, 9000, 70000, 300000))))
    out.append(("misc", misc, {}))
    for kind, sizes in (("redirect", [(1 << 31) + 5, (1 << 32) + 5]), ("loose", [(1 << 31) + 5] + ([] if quick else [(1 << 32) + 5])),
                        ("git", [] if quick else [(1 << 31) - 1, (1 << 32) - 1])):
        for size in sizes:
            out.append(("giant-%s-%d" % (kind, size), giants, dict(kind=kind, sizes=[size])))
    out.sort(key=lambda u: -1 if u[0].startswith("giant") else 0 if u[0].startswith("huge") or u[0] == "misc" else 1)
    return out
