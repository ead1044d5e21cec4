"""C25: any path will do"""
import gc
import os
import shutil

from mc import gitref as g
from mc.core import Violation, expect, expect_eq
from mc.dbcheck import check_db, debris, release_maps
from mc.world import Dir, MODEL, NAMES, known

PROPERTY = "C25"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of directory names x ways to refer to them x a fixed history of all kinds of operations on the real code, each answer against the model of the directory"
LEVEL_NOTE = ("Every byte a name may contain, at each place in a name; all ordered pairs of special names as outer and inner directory; each referred to in every way (absolute, relative, with dots, slashes, through links).")
RULE = ("In a directory of any name, by whichever path it is referred to, repository, loose and pack databases, alternates, pack entities, stores, pack creation, refresh and file locks do what they do elsewhere, and nothing appears "
        "anywhere but in this directory. Non-trivial: distinct (outer name, inner name, form).")
CASE_TIMEOUT = 30

# special for globbing, shells, formatting, regular expressions, path handling, encodings or git itself
SPECIAL = [b"plain", b"[a]", b"[!a]", b"[]", b"a[", b"*", b"a*", b"?", b"a?b", b"**", b"!a", b"~", b"~nobody", b"$HOME", b"%s", b"%(a)s", b"{}", b"{0}", b" ", b" a", b"a ", b"a\nb", b"\\", b"a\\n", b"'", b'"a"', b"a,b", b"a:b", b"-a", b"--",
           b"...", b".a", b"a.", "\u00e4\u4e2d".encode(), b"\xff\xfe", b"\xc3", b"a.pack", b"a.idx", b"pack-1.pack", b"a.lock", b".git", b"info", b"pack", b"objects", b"alternates", b"ab", b"0" * 38, b"a" * 40, b"n" * 255]
FORMS = ("abs", "rel", "dot", "slash", "slashes", "dotdot", "link", "linkin", "inside", "double", "linkup")
BOUNDS = {"quick": "254 bytes x 5 positions x 3 forms; pairs of %d names x 2 forms, single ones x %d forms" % (len(SPECIAL), len(FORMS)), "thorough": "pairs of names x all forms, all pairs of bytes up to 127 and any x 2 forms"}


def refer(form, base, name):
    """:return: (directory to be in, path of base/name)"""
    p = os.path.join(base, name)
    if form == "abs":
        return "/", p
    if form == "rel":
        return base, name
    if form == "dot":
        return base, "./" + name
    if form == "slash":
        return "/", p + "/"
    if form == "slashes":
        return "/", p + "///"
    if form == "dotdot":
        return "/", os.path.join(p, "..", os.path.basename(p))
    if form == "link":
        os.symlink(name, base + "/zz-link")
        return base, base + "/zz-link"
    if form == "linkin":
        os.symlink(base, base + "/zz-way")
        return base, base + "/zz-way/" + name
    if form == "inside":
        return p, "."
    if form == "linkup":
        # .. is the parent of what the link refers to
        os.makedirs(base + "/zz-deep/sub")
        os.symlink("zz-deep/sub", base + "/zz-way")
        return base, base + "/zz-way/../../" + name
    if form == "double":
        return "/", "//" + p.lstrip("/").replace("/", "//")


def operate(path, d, base, full=True):
    """:param path: how we refer to the directory d"""
    from io import BytesIO
    from gitdb import IStream
    from gitdb.db import GitDB, LooseObjectDB, PackedDB, ReferenceDB
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    from gitdb.util import LockedFD
    alt = Dir(d.path + "-alt" if len(os.path.basename(d.path)) < 250 else d.path[:-10] + "-alt").create()
    alt.add_loose(3)
    d.add_pack("p0", (0, 1), "ofs")
    d.add_loose(2)
    line = os.path.basename(alt.path)
    if b"\n" not in os.fsencode(alt.path) and b"\r" not in os.fsencode(alt.path):
        d.set_alternates([("../" + line, alt)])
        d.set_alternates(d.alternates + [(alt.path, alt)])

    def models():
        loose = {n: known(n) for n in d.loose}
        packed = {n: known(n) for _, names in d.packs.values() for n in names}
        return loose, packed, {n: known(n) for n in d.visible()}
    git, loose, packed = GitDB(path), LooseObjectDB(path), PackedDB(os.path.join(path, "pack"))

    def look(what, quick=False):
        l, p, a = models()
        absent = NAMES if not quick else ()
        check_db(git, a, absent, what + ": repository", unique=False, prefixes=not quick)
        if not quick:
            check_db(loose, l, absent, what + ": loose objects")
            check_db(packed, p, absent, what + ": packs", unique=False)
    expect_eq((git.root_path(), loose.root_path()), (path, path), "root_path")
    look("first")
    # changes of somebody else
    d.add_pack("p1", (0, 3), "ref", 1)
    packed.update_cache()
    git.update_cache()
    look("pack added", True)
    d.del_pack("p0")
    packed.update_cache()
    git.update_cache()
    look("pack removed", True)
    # our changes
    for db in (git, loose):
        i = 4 if db is git else 1
        typ, data = MODEL[NAMES[i]]
        expect_eq(bytes(db.store(IStream(typ, len(data), BytesIO(data))).binsha), NAMES[i], "store")
        d.loose.add(NAMES[i])
    e = PackEntity.create([git.stream(n) for n in (NAMES[1], NAMES[4])], os.path.join(path, "pack"))
    stem = os.path.basename(e.pack().path())[:-5]
    d.packs["own"] = (stem, {NAMES[1], NAMES[4]})
    d._touch()
    expect_eq(e.pack().path(), os.path.join(path, "pack", stem + ".pack"), "path of the new pack")
    packed.update_cache()
    git.update_cache()
    look("own objects")
    for p in (e.pack().path(), e.index().path()):
        x = PackEntity(p)
        expect_eq(sorted(bytes(o.binsha) for o in x.info_iter()), sorted((NAMES[1], NAMES[4])), "entity")
        for n in (NAMES[1], NAMES[4]):
            expect(x.is_valid_stream(n, use_crc=True), "not valid")
            expect_eq(bytes(x.stream(n).read()), MODEL[n][1], "content")
    expect_eq((PackFile(e.pack().path()).size(), PackIndexFile(e.index().path()).size()), (2, 2), "sizes")
    # the other way round: somebody refers to us
    top = os.path.dirname(os.path.realpath(d.path))
    name = os.path.basename(os.path.realpath(d.path))
    if not any(c in os.fsencode(top + name) for c in b"\r\n"):
        user = Dir(os.path.join(top, "zz-user")).create()
        for ln in (os.path.join(top, name), "../" + name):
            user.set_alternates([(ln, d)])
            git2 = GitDB(user.path)
            check_db(git2, models()[2], NAMES[:1], "as alternate %r" % ln, unique=False, prefixes=False)
            # with line endings of its own, none, and the path in the middle
            for text in ("%s" % ln, "# comment\n%s\n/nonexistent\n" % ln):
                user.set_alternates(user.alternates, text)
                git2.update_cache()
                for n in d.visible():
                    expect(git2.has_object(n), "not found as alternate %r", text)
            del git2
        user.destroy()
    if d.alternates:
        ref = ReferenceDB(os.path.join(path, "info", "alternates"))
        check_db(ref, {n: known(n) for n in alt.visible()}, NAMES[:1], "alternates", unique=False)
        here = os.getcwd()
        d.set_alternates([("../" + line, alt)])
        try:
            for cwd, p in (("info", "alternates"), ("info", "./alternates"), ("info", "../info/alternates"), ("info", ".//alternates"), (".", "info/alternates"), (".", "./info//alternates"), (".", "info/./alternates"),
                           ("pack", "../info/alternates"), ("pack", ".././info/../info/alternates")):
                os.chdir(os.path.join(d.path, cwd))
                ref = ReferenceDB(p)
                for _ in range(2):
                    expect_eq((ref.has_object(NAMES[3]), ref.has_object(NAMES[2]), sorted(set(ref.sha_iter()))), (True, False, [NAMES[3]]), "alternates file %s, seen from %s" % (p, cwd))
                    ref.update_cache()
        finally:
            os.chdir(here)
            d.set_alternates([("../" + line, alt), (alt.path, alt)])
    # file locks; the name of the lock file is longer than the file's
    target = os.path.join(path, "locked file")
    for text in (b"one", b"two"):
        l = LockedFD(target)
        os.write(l.open(write=True), text)
        expect(os.path.exists(target + ".lock"), "no lock file")
        try:
            LockedFD(target).open(write=True)
        except OSError:
            pass
        else:
            raise Violation("locked twice")
        l.commit()
        with open(target, "rb") as f:
            expect_eq(f.read(), text, "committed")
    l = LockedFD(target)
    os.write(l.open(write=True, stream=False), b"three")
    l.rollback()
    l = LockedFD(target)
    s = l.open(stream=True)
    expect_eq(bytes(s.read(10)), b"two", "after a rollback")
    l.rollback()
    os.unlink(target)
    del e, x, s, l, git, loose, packed
    gc.collect()
    expect_eq(debris(d.path), [], "debris")
    shutil.rmtree(alt.path)


def listing(base):
    return sorted(os.listdir(os.fsencode(base)))


def case(base, outer, inner, form):
    base = os.path.join(base, os.fsdecode(outer)) if outer else base
    os.makedirs(base, exist_ok=True)
    name = os.fsdecode(inner)
    before = listing(base)
    d = Dir(os.path.join(base, name)).create()
    cwd, path = refer(form, base, name)
    os.chdir(cwd)
    try:
        operate(path, d, base)
    finally:
        os.chdir("/")
        release_maps()
        d.destroy()
        for n in ("zz-link", "zz-way"):
            if os.path.islink(base + "/" + n):
                os.unlink(base + "/" + n)
        shutil.rmtree(base + "/zz-deep", ignore_errors=True)
    expect_eq(listing(base), before, "something appears next to the directory")


def pairs(ctx, outer, forms):
    base = ctx.fresh_dir("p")
    for inner in SPECIAL:
        for form in FORMS if b"plain" in (outer, inner) else forms:
            if ctx.run("%r/%r/%s" % (outer, inner, form), case, base, outer, inner, form) is None:
                ctx.distinct("nontrivial", (outer, inner, form))
    ctx.sample({"outer": repr(outer), "inner": [repr(n) for n in SPECIAL], "forms": forms}, 1)


def single(ctx, part, parts):
    base = ctx.fresh_dir("b")
    for b in range(part, 256, parts):
        c = bytes([b])
        if c in b"\0/":
            continue
        for inner in (c, b"a" + c, c + b"a", b"a" + c + b"a", c + c + c):
            if inner in (b".", b".."):
                continue
            for form in ("abs", "rel", "inside"):
                if ctx.run("%r/%s" % (inner, form), case, base, b"", inner, form) is None:
                    ctx.distinct("nontrivial", (b"", inner, form))
    ctx.sample({"bytes": [part, 256, parts]}, 1)


def double(ctx, first):
    base = ctx.fresh_dir("d")
    for a in first:
        for b in range(1, 256):
            inner = bytes([a, b])
            if b"/" in inner or inner == b"..":
                continue
            for form in ("abs", "rel"):
                if ctx.run("%r/%s" % (inner, form), case, base, b"", inner, form) is None:
                    ctx.distinct("nontrivial", (b"", inner, form))


def units(tier, seed):
    os.environ["HOME"] = "/nonexistent"         # whatever is expanded, and should not be
    forms = ("abs", "rel") if tier == "quick" else FORMS
    out = [("pair-%d" % i, pairs, dict(outer=o, forms=forms)) for i, o in enumerate(SPECIAL)]
    out += [("byte-%d" % i, single, dict(part=i, parts=16)) for i in range(16)]
    if tier != "quick":
        # printable ones first in a name can have a meaning
        out += [("double-%02x" % a, double, dict(first=[a])) for a in range(1, 128) if a != 47]
    return out
