"""What is in an objects directory, according to the reference reader, and whether databases answer accordingly"""
import os
import re
import zlib

from mc import gitref as g
from mc.core import Violation, expect, expect_eq

HEX2, HEX38 = re.compile(r"^[0-9a-f]{2}$"), re.compile(r"^[0-9a-f]{38}$")
ABSENT = bytes(range(20))


def release_maps():
    """Give back mappings nobody uses any more"""
    from gitdb.util import mman
    getattr(mman, "collect", int)()


def slurp(p):
    with open(p, "rb") as f:
        return f.read()


def disk_loose(root, what="disk"):
    """:return: {name: (type, content)} of the loose objects below root. Every object file has to be canonical and true to its name"""
    out = {}
    for d in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        if not HEX2.match(d) or not os.path.isdir(os.path.join(root, d)):
            continue
        for f in sorted(os.listdir(os.path.join(root, d))):
            if not HEX38.match(f):
                continue
            p = os.path.join(root, d, f)
            try:
                obj = g.parse_loose(slurp(p))
            except (g.FormatError, zlib.error, ValueError) as e:
                raise Violation("%s: object file %s/%s is damaged: %s" % (what, d, f[:6], e))
            expect(g.obj_sha(*obj) == bytes.fromhex(d + f), "%s: object file %s/%s holds something else", what, d, f[:6])
            out[bytes.fromhex(d + f)] = obj
    return out


def disk_packs(packdir, what="disk"):
    """:return: {stem: {name: (type, content)}} of all packs which have an index"""
    out = {}
    for f in sorted(os.listdir(packdir)) if os.path.isdir(packdir) else ():
        m = re.match(r"^(pack-.*)\.pack$", f)
        if not m or not os.path.exists(os.path.join(packdir, m.group(1) + ".idx")):
            continue
        pack, idx = slurp(os.path.join(packdir, f)), slurp(os.path.join(packdir, m.group(1) + ".idx"))
        try:
            objs = g.parse_objects(pack)
            ents = g.parse_pack(pack)
            _, items, sha = g.parse_idx(idx)
        except (g.FormatError, zlib.error, ValueError, IndexError) as e:
            raise Violation("%s: pack %s.. is damaged: %s" % (what, f[:12], e))
        expect(sha == pack[-20:], "%s: index is not the one of pack %s", what, f[:12])
        expect_eq(sorted(o for _, _, o in items), sorted(e["offset"] for e in ents), "%s: offsets in the index of %s" % (what, f[:12]))
        expect_eq(sorted(n for n, _, _ in items), sorted(objs), "%s: names in the index of %s" % (what, f[:12]))
        out[m.group(1)] = objs
    return out


def disk(objects, what="disk"):
    out = dict(disk_loose(objects, what))
    for objs in disk_packs(os.path.join(objects, "pack"), what).values():
        out.update(objs)
    return out


def debris(objects):
    """Files which are neither objects, nor packs with index"""
    out = []
    for d, dirs, files in os.walk(objects):
        rel = os.path.relpath(d, objects)
        for f in files:
            if HEX2.match(rel) and HEX38.match(f):
                continue
            if f.endswith((".pack", ".idx")) and os.path.exists(os.path.join(d, os.path.splitext(f)[0] + (".idx" if f.endswith(".pack") else ".pack"))):
                continue
            if rel == "info":
                continue
            out.append(os.path.normpath(os.path.join(rel, f)))
    return sorted(out)


def check_db(db, model, absent, what, unique=True, prefixes=True, pieces=False):
    """The database answers for exactly the objects of model {name: (type, content)}, through every query
    :param unique: enumeration yields each name once, size() counts distinct ones"""
    from gitdb.exc import BadObject
    for sha, (typ, data) in model.items():
        h = sha.hex()[:8]
        expect(db.has_object(sha) is True, "%s: has_object(%s) is false", what, h)
        expect(sha in db, "%s: %s not in database", what, h)
        i = db.info(sha)
        expect_eq((bytes(i.binsha), bytes(i.type), i.size), (sha, typ, len(data)), "%s: info(%s)" % (what, h))
        s = db.stream(sha)
        expect_eq((bytes(s.binsha), bytes(s.type), s.size), (sha, typ, len(data)), "%s: stream(%s)" % (what, h))
        if pieces:
            got = b"".join(iter(lambda: bytes(s.read(pieces)), b""))
        else:
            got = bytes(s.read())
        expect_eq(got, data, "%s: content of %s" % (what, h))
    got = [bytes(s) for s in db.sha_iter()]
    expect_eq(sorted(set(got)), sorted(model), what + ": sha_iter")
    if unique:
        expect_eq(len(got), len(model), what + ": number of names in sha_iter")
        expect_eq(db.size(), len(model), what + ": size")
    for sha in list(absent) + [ABSENT]:
        if sha in model:
            continue
        h = sha.hex()[:8]
        expect(db.has_object(sha) is False, "%s: has_object(%s) of an absent object", what, h)
        expect(sha not in db, "%s: absent object %s in database", what, h)
        for fn in (db.info, db.stream):
            try:
                fn(sha)
            except BadObject:
                pass
            else:
                raise Violation("%s: %s(%s) of an absent object did not raise BadObject" % (what, fn.__name__, h))
    if prefixes:
        check_prefixes(db, model, absent, what)


def check_prefixes(db, model, absent, what, lengths=(4, 7, 40)):
    from gitdb.exc import BadObject, AmbiguousObjectName
    names = {s.hex() for s in model}
    for sha in list(model) + list(absent):
        for n in lengths:
            p = sha.hex()[:n]
            match = [x for x in names if x.startswith(p)]
            want = "ambiguous" if len(match) > 1 else match[0] if match else "missing"
            try:
                if hasattr(db, "partial_to_complete_sha_hex"):
                    got = bytes(db.partial_to_complete_sha_hex(p.encode())).hex()
                elif hasattr(db, "partial_to_complete_sha"):
                    got = bytes(db.partial_to_complete_sha(bytes.fromhex(p + "0" * (len(p) % 2)), n)).hex()
                else:
                    return
            except AmbiguousObjectName:
                got = "ambiguous"
            except BadObject:
                got = "missing"
            expect_eq(got, want, "%s: prefix %s" % (what, p))


def fresh_dbs(objects):
    """Newly opened databases on an objects directory: [(name, db, which part it answers for)]"""
    from gitdb.db import LooseObjectDB, GitDB, PackedDB
    out = [("loose", LooseObjectDB(objects), "loose")]
    if os.path.isdir(objects + "/pack"):
        out.append(("packed", PackedDB(objects + "/pack"), "packed"))
    out.append(("git", GitDB(objects), "all"))
    return out


def check_objects_dir(objects, absent, what, prefixes=True):
    """Newly opened databases answer for exactly what the reference reader finds. :return: {name: (type, content)}"""
    loose, packs = disk_loose(objects, what), disk_packs(objects + "/pack", what)
    packed = {}
    for p in packs.values():
        packed.update(p)
    both = dict(packed, **{})
    both.update(loose)
    n_all = len(loose) + sum(len(p) for p in packs.values())
    for name, db, part in fresh_dbs(objects):
        model = {"loose": loose, "packed": packed, "all": both}[part]
        dup = {"loose": False, "packed": len(packed) != sum(len(p) for p in packs.values()), "all": n_all != len(both)}[part]
        check_db(db, model, absent, "%s: newly opened %s database" % (what, name), unique=not dup, prefixes=prefixes)
    return both
