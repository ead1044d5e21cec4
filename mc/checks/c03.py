"""C03: packed objects resolve exactly through any delta chain"""
import array
import itertools
import os
import subprocess

from mc import gitref as g
from mc.core import expect, expect_eq, Violation
from mc.deltas import uniq, encode, all_programs, steps, check_entity, prog_len
from mc.fixtures import content, ZS

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of delta programs, chains and pack layouts executed by the real code against a reference interpreter"
LEVEL_NOTE = ("Exhaustive within the program and chain bounds; trusts the reference interpreter, whose packs git index-pack --strict accepts and resolves identically.")
RULE = ("Exhaustive enumeration of delta programs, chains, link kinds, orders in the pack, opcode forms, length encodings and zlib "
        "encodings; every resulting object is read through info, stream, index position and iteration and compared with an "
        "independent strict delta interpreter. Non-trivial: distinct (program or chain, encoding) with at least one delta.")
BOUNDS = {"quick": "programs of <=2 instructions over a base of 6 bytes and <=3 over 3 bytes; chains of depth <=3 over 7 step kinds x all "
                   "orders x all link kinds; all 2187 copy opcode forms; sizes around 512, 2^7, 2^14, 2^16, 2^21; chains of 60 deltas",
          "thorough": "programs of <=3 instructions over 5 bytes and <=4 over 3 bytes; chains of depth <=4; chains of 300 deltas"}


def open_pack(ctx, entries, version=2):
    from gitdb.pack import PackEntity
    return PackEntity(g.write_pack(ctx.fresh_dir(), entries, version))


def check_all(ctx, cid, entity, entries, by_iteration=True):
    """Every object by name; then positions and iteration"""
    for e in entries:
        if e.result is None:
            continue
        c = "%s/%s" % (cid, getattr(e, "label", e.kind))
        ctx.run(c, check_entity, entity, e.name, e.typ, e.result, "by name", expect, expect_eq)
        if e.kind != "full":
            ctx.distinct("nontrivial", c)
    ctx.run(cid + "/positions", positions, entity, entries, by_iteration)


def positions(entity, entries, by_iteration):
    want = sorted((e.name, e.typ, e.result) for e in entries)
    expect_eq(entity.index().size(), len(want), "index size")
    for i, (name, typ, data) in enumerate(want):
        o = entity.info_at_index(i)
        expect_eq((bytes(o.binsha), bytes(o.type), o.size), (name, typ, len(data)), "info_at_index(%d)" % i)
        s = entity.stream_at_index(i)
        expect_eq((bytes(s.binsha), bytes(s.type), bytes(s.read())), (name, typ, data), "stream_at_index(%d)" % i)
    if by_iteration:
        got = [(bytes(o.binsha), bytes(o.type), o.size) for o in entity.info_iter()]
        expect_eq(got, [(n, t, len(d)) for n, t, d in want], "info_iter")
        got = [(bytes(s.binsha), bytes(s.type), bytes(s.read())) for s in entity.stream_iter()]
        expect_eq(got, want, "stream_iter")


# ------------------------------------------------------------------ (a) all programs
def programs(ctx, base_len, max_ops, part, parts, kind, version):
    base = bytes(range(97, 97 + base_len))
    progs = [p for n, p in enumerate(all_programs(base_len, max_ops)) if n % parts == part]
    for lo in range(0, len(progs), 2000):
        b = g.E("full", b"blob", base, name=uniq("base"))
        ents = [b]
        for n, p in enumerate(progs[lo:lo + 2000]):
            d = encode(p, base_len)
            e = g.E(kind, data=d, base=0, name=uniq(lo, n), z=ZS["l1"])
            e.label = "prog" + repr(p)
            ents.append(e)
        entity = open_pack(ctx, ents, version)
        check_all(ctx, "programs/%d/%s" % (base_len, kind), entity, ents)
    ctx.sample({"base": repr(base), "program": repr(progs[-1]), "link": kind}, 1)


# ------------------------------------------------------------------ (b) chains
def chains(ctx, depth, perm, kinds, version):
    """All programs over the step alphabet, for one order in the pack and one assignment of link kinds.
    perm[i] is the place of chain element i (0 = base)"""
    typs = list(g.TYPE_IDS)
    ents = []
    base = b"base content"

    def combos(size, left):
        if not left:
            yield ()
            return
        for name, prog in steps(size):
            for rest in combos(prog_len(prog), left - 1):
                yield ((name, prog, size),) + rest
    groups = list(combos(len(base), depth))
    for n, chain in enumerate(groups):
        start = len(ents)
        typ = typs[n % 4]
        group = [g.E("full", typ, base, name=uniq(n, 0))]
        group[0].label = "base%d" % n
        for i, (name, prog, size) in enumerate(chain):
            e = g.E(kinds[i], data=encode(prog, size), base=start + perm[i], name=uniq(n, i + 1))
            e.label = ">".join(c[0] for c in chain[:i + 1]) + "#%d" % n
            group.append(e)
        ents.extend(e for _, e in sorted(zip(perm, group), key=lambda t: t[0]))
    entity = open_pack(ctx, ents, version)
    assert all(e.result is not None for e in ents)
    check_all(ctx, "chain/%s/%s" % ("".join(map(str, perm)), "-".join(kinds)), entity, ents)
    ctx.sample({"order in pack": perm, "links": kinds, "chains": len(groups), "steps": [c[0] for c in chain]}, 1)


def valid_orders(depth):
    for perm in itertools.permutations(range(depth + 1)):
        for kinds in itertools.product(("ofs", "ref"), repeat=depth):
            # an offset delta has to come after its base
            if all(k == "ref" or perm[i + 1] > perm[i] for i, k in enumerate(kinds)):
                yield perm, kinds


def long_chain(ctx, length, pattern, zname):
    ents = [g.E("full", b"tree", content("text", 700, ctx.seed), name=uniq("lc", 0), z=ZS[zname])]
    size = 700
    for i in range(length):
        st = steps(size)
        # mostly swapping, from time to time shrinking and growing
        name, prog = [s for s in st if s[0] == ("shrink" if i % 7 == 6 else "grow" if size < 500 else "swap")][0]
        e = g.E(pattern[i % len(pattern)], data=encode(prog, size), base=i, name=uniq("lc", i + 1), z=ZS[zname])
        e.label = "level%d" % (i + 1)
        ents.append(e)
        size = prog_len(prog)
    entity = open_pack(ctx, ents)
    assert all(e.result is not None for e in ents)
    check_all(ctx, "long/%s/%s" % (".".join(pattern), zname), entity, ents)


# ------------------------------------------------------------------ (c) all opcode forms
def big_base():
    return array.array("I", range(4600000)).tobytes()          # 18.4 MB, every 4 byte word is different


def opcodes(ctx, part, parts):
    base = big_base()
    ents = [g.E("full", b"blob", base, name=uniq("big"), z=ZS["l1"])]
    for mask in range(part, 128, parts):
        copies = []
        vals = [(0, 0xfd), (0, 0xfe), (0, 0x11), (0, 1), (0, 0x05), (0, 0x03), (0, 1)]
        for combo in itertools.product(*[vals[i] if mask >> i & 1 else (0,) for i in range(7)]):
            off = sum(b << (8 * i) for i, b in enumerate(combo[:4]))
            size = sum(b << (8 * i) for i, b in enumerate(combo[4:])) or 0x10000
            if off + size > len(base):
                continue
            copies.append(("c", off, size, mask))
        for lo in range(0, len(copies), 32):
            ops = copies[lo:lo + 32]
            d = encode([o if o[2] != 0x10000 or not mask & 0x70 else o for o in ops], len(base))
            e = g.E("ofs", data=d, base=0, name=uniq("op", mask, lo))
            e.label = "mask%02x.%d" % (mask, lo)
            ctx.count("opcode_forms", len(ops))
            ents.append(e)
    entity = open_pack(ctx, ents)
    for e in ents:
        c = "opcodes/" + getattr(e, "label", "base")
        ctx.run(c, check_entity, entity, e.name, e.typ, e.result, "by name", expect, expect_eq, again=True)
        ctx.distinct("nontrivial", c)


# ------------------------------------------------------------------ (d) sizes
def sizes(ctx, zname, version):
    z = ZS[zname]
    ents = []

    def add(label, base, prog, pad=(0, 0), kind="ofs", typ=b"blob"):
        b = g.E("full", typ, base, name=uniq("sb", len(ents)), z=z)
        b.label = label + "/base"
        ents.append(b)
        e = g.E(kind, data=encode(prog, len(base), pad=pad), base=len(ents) - 1, name=uniq("sd", len(ents)), z=z)
        e.label = label
        ents.append(e)
    # result and base sizes around the boundaries of the length encoding
    for n in (0, 1, 127, 128, 129, 16383, 16384, 16385):
        base = content("rand", n, ctx.seed)
        for pad in ((0, 0), (1, 0), (0, 1), (3, 2)):
            add("base%d/pad%s" % (n, pad), base, ([("c", 0, n)] if n else []) + [("i", b"!")], pad)
            add("result%d/pad%s" % (n, pad), b"z" * (n or 1), [("c", 0, n)] if n else [], pad, "ref")
    # deltas around the 512 bytes which are read first, all kinds of instruction across the boundary
    base = content("text", 3000, ctx.seed)
    for total in list(range(500, 530)) + [1023, 1024, 1025, 4095, 4096, 4097]:
        for last in (("c", 0x102, 0x304), ("i", b"0123456789abcdef" * 7)):
            fill, prog = total, []
            while fill > 0:
                k = min(100, fill)
                prog.append(("i", b"A" * k))
                fill -= k + 1
            add("delta%d/%s" % (total, last[0]), base, prog + [last])
    for cnt in (100, 1000):
        add("many%d" % cnt, base, [("c", (i * 37) % 2900, 1 + i % 90) for i in range(cnt)])
    add("ins127", base, [("i", bytes(range(1, 128)))] * 3)
    entity = open_pack(ctx, ents, version)
    assert all(e.result is not None for e in ents)
    check_all(ctx, "sizes/%s/v%d" % (zname, version), entity, ents)


def large(ctx, n, zname):
    """Sizes around 2^16 and 2^21, chains with large intermediate results"""
    base = content("mix", n, ctx.seed)
    prog = [("c", i, min(0xffffff, n - i)) for i in range(0, n, 0xffffff)]
    k = len(base)
    ents = [g.E("full", b"blob", base, name=uniq("l", 0), z=ZS[zname]),
            g.E("ofs", data=encode(prog + [("i", b"!")], k), base=0, name=uniq("l", 1), z=ZS[zname]),
            g.E("ref", data=encode([("c", 0, k - 1), ("c", 1, k - 1)] if k < 0xffffff else [("i", b"x")], k + 1), base=1,
                name=uniq("l", 2), z=ZS[zname])]
    ents.append(g.E("ofs", data=encode([("c", 5, 100)], len(_res(ents, 2))), base=2, name=uniq("l", 3)))
    ents.append(g.E("ofs", data=encode([("c", 5, 90), ("i", b"end"), ("c", 0, 10)], 100), base=3, name=uniq("l", 4)))
    g.build_pack(ents)
    assert all(e.result is not None for e in ents)
    for i, e in enumerate(ents):
        e.label = "e%d" % i
    check_all(ctx, "large/%d/%s" % (n, zname), open_pack(ctx, ents), ents)


def _res(ents, i):
    g.build_pack(ents)
    return ents[i].result


# ------------------------------------------------------------------ (e) database level, several packs, git as writer
def databases(ctx):
    from gitdb.db import PackedDB
    d = ctx.fresh_dir()
    ents = [g.E("full", b"commit", b"base"), g.E("ref", data=encode([("c", 0, 2), ("i", b"q")], 4), base=0),
            g.E("ofs", data=encode([("c", 1, 2)], 3), base=1)]
    more = [g.E("full", b"tag", b"other"), g.E("ofs", data=encode([("i", b"w"), ("c", 1, 2)], 5), base=0)]
    g.write_pack(d, ents)
    g.write_pack(d, more, 1)
    db = PackedDB(d)

    def one(e):
        i, s = db.info(e.name), db.stream(e.name)
        expect_eq((bytes(i.binsha), i.type, i.size), (e.name, e.typ, len(e.result)), "info")
        expect_eq((bytes(s.binsha), s.type, s.size, bytes(s.read())), (e.name, e.typ, len(e.result), e.result), "stream")
    for e in ents + more:
        ctx.run("packeddb/" + e.name.hex(), one, e)


def git_packs(ctx, args):
    """Packs written by git itself: many similar blobs"""
    from gitdb.pack import PackEntity
    root = ctx.fresh_dir()
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM="1", HOME=root, GIT_DIR=root + "/r.git")
    try:
        subprocess.run(["git", "init", "-q", "--bare", root + "/r.git"], check=True, env=env, capture_output=True)
    except (OSError, subprocess.CalledProcessError):
        ctx.notes["git"] = "not available"
        return
    objs = {}
    text = content("text", 9000, ctx.seed)
    for i in range(60):
        data = text[:i * 37] + b"changed line %d\n" % i + text[i * 40:] + (b"" if i % 3 else content("rand", i * 11))
        h = subprocess.run(["git", "hash-object", "-w", "--stdin"], input=data, env=env, capture_output=True, check=True)
        objs[bytes.fromhex(h.stdout.strip().decode())] = data
    q = "".join(h.hex() + "\n" for h in objs).encode()
    r = subprocess.run(["git", "pack-objects", "-q"] + args + [root + "/pack"], input=q, env=env, capture_output=True, check=True)
    entity = PackEntity(root + "/pack-%s.pack" % r.stdout.strip().decode())
    for h, data in objs.items():
        ctx.run("git/%s/%s" % (" ".join(args), h.hex()), check_entity, entity, h, b"blob", data, "written by git", expect, expect_eq)
        ctx.count("objects_written_by_git")


def ours_in_git(ctx):
    """The reference encoder is right: git index-pack accepts and resolves what it builds"""
    root = ctx.fresh_dir()
    if subprocess.run(["which", "git"], capture_output=True).returncode:
        return
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM="1", HOME=root)
    subprocess.run(["git", "init", "-q", root], check=True, env=env, capture_output=True)
    for depth in (1, 2):
        for perm, kinds in valid_orders(depth):
            group = [g.E("full", b"blob", b"base content %d" % depth)]
            size = len(group[0].data)
            for i in range(depth):
                prog = [("c", 2, size - 4), ("i", b"lvl%d" % i)]
                group.append(g.E(kinds[i], data=encode(prog, size), base=perm[i]))
                size = prog_len(prog)
            ents = [e for _, e in sorted(zip(perm, group), key=lambda t: t[0])]
            data = g.build_pack(ents)
            r = subprocess.run(["git", "index-pack", "--stdin", "--strict"], input=data, cwd=root, env=env, capture_output=True)
            assert r.returncode == 0, r.stderr
            for e in ents:
                r = subprocess.run(["git", "cat-file", "blob", e.name.hex()], cwd=root, env=env, capture_output=True)
                assert r.stdout == e.result
                ctx.count("reference_objects_accepted_by_git")


def units(tier, seed):
    quick = tier == "quick"
    out = []
    for part in range(4):
        out.append(("opcodes-%d" % part, opcodes, dict(part=part, parts=4)))
    spec = [(6, 2, 1), (3, 3, 2)] if quick else [(6, 2, 1), (5, 3, 8), (3, 4, 16), (4, 3, 4)]
    for base_len, max_ops, parts in spec:
        for part in range(parts):
            for kind, version in (("ofs", 2), ("ref", 1)):
                out.append(("prog-%d-%d-%d-%s" % (base_len, max_ops, part, kind), programs,
                            dict(base_len=base_len, max_ops=max_ops, part=part, parts=parts, kind=kind, version=version)))
    for depth in ((1, 2, 3) if quick else (1, 2, 3, 4)):
        for n, (perm, kinds) in enumerate(valid_orders(depth)):
            out.append(("chain-%s-%s" % ("".join(map(str, perm)), "-".join(kinds)), chains,
                        dict(depth=depth, perm=perm, kinds=kinds, version=1 + n % 2)))
    for pattern in (("ofs",), ("ref",), ("ofs", "ref"), ("ref", "ref", "ofs")):
        for zname in ("l6", "m1"):
            out.append(("long-%s-%s" % ("".join(pattern), zname), long_chain,
                        dict(length=60 if quick else 300, pattern=pattern, zname=zname)))
    for zname in ("l6", "l0", "m1", "sync1k", "lead40", "trail40", "stored1", "huff"):
        for version in (1, 2):
            out.append(("sizes-%s-%d" % (zname, version), sizes, dict(zname=zname, version=version)))
    for n in ((65535, 65536, 65537, 2097151, 2097152) if quick else (65535, 65536, 65537, 2097151, 2097152, 2097153, 5000000)):
        for zname in ("l1", "l0", "m1"):
            out.append(("large-%d-%s" % (n, zname), large, dict(n=n, zname=zname)))
    out.append(("databases", databases, {}))
    for args in (["--depth=50", "--window=10"], ["--depth=50", "--delta-base-offset"], ["--depth=2", "--compression=0"]):
        out.append(("git-" + args[-1], git_packs, dict(args=args)))
    out.append(("reference-in-git", ours_in_git, {}))
    return out
