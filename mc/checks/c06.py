"""C06: an abbreviated name resolves if and only if it is unique"""
import itertools
import os

from mc import gitref as g
from mc.core import expect, expect_eq
from mc.deltas import uniq

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of name sets, of their distribution over storage parts, and of all prefixes, against a set model"
LEVEL_NOTE = ("Every prefix length 4..40 (lower, upper and mixed case, text and bytes) for every enumerated database; name sets are built from an "
              "adversarial universe with shared prefixes around fan-out and byte boundaries.")
RULE = ("For every subset of an adversarial universe of names (single index), and every distribution of names over loose storage, two packs and an "
        "alternate with both: every prefix of 4..40 digits of every name and of near misses is resolved and compared with counting matches in "
        "the set of distinct names. Non-trivial: distinct databases with at least two names.")
BOUNDS = {"quick": "all subsets of 13 names in one index x v1/v2; all 9^3 distributions of 3 names over 8 place combinations plus fixed others",
          "thorough": "all subsets of 15 names x v1/v2; all 12^3 and 6^4 distributions"}


def hx(s):
    return bytes.fromhex(s + "0" * (40 - len(s))) if len(s) < 40 else bytes.fromhex(s)


# names sharing 3, 4, 5, 6, 7, 38, 39 digits; first and last fan-out bucket; zero digits following the prefix
UNIVERSE = [hx("abcd1234" + "5" * 32), hx("abcd1234" + "5" * 31 + "6"), hx("abcd1235"), hx("abcd1244"), hx("abcd2"), hx("abce"), hx("abcc" + "f" * 36),
            hx("0000"), hx("0000" + "0" * 35 + "1"), hx("00000f"), hx("ffff" + "f" * 36), hx("ffff" + "f" * 35 + "e"), hx("fffff"), hx("abcd12345" + "0" * 30 + "1"), hx("abcd9" + "1" * 35)]


def prefixes(names, others=()):
    out = set()
    for x in list(names) + list(others):
        h = x.hex()
        for k in range(4, 41):
            out.add(h[:k])
    # near misses: the last digit of a prefix is changed
    for x in names:
        h = x.hex()
        for k in (4, 5, 6, 7, 8, 9, 39, 40):
            for d in ("0", "f", "%x" % ((int(h[k - 1], 16) + 1) % 16), "%x" % ((int(h[k - 1], 16) - 1) % 16), "%x" % (int(h[k - 1], 16) ^ 2), "%x" % (int(h[k - 1], 16) ^ 4),
                      "%x" % (int(h[k - 1], 16) ^ 8)):
                out.add(h[:k - 1] + d)
    return sorted(out)


def want(names, p):
    """:return: name, "ambiguous" or None"""
    m = {x for x in names if x.hex().startswith(p.lower())}
    return None if not m else m.pop() if len(m) == 1 else "ambiguous"


def outcome(fn, *args):
    from gitdb.exc import BadObject, AmbiguousObjectName
    try:
        r = fn(*args)
    except AmbiguousObjectName:
        return "ambiguous"
    except BadObject:
        return None
    return None if r is None else bytes(r)


def bin_args(p):
    return bytes.fromhex(p + ("0" if len(p) % 2 else "")), len(p)


def check_index(path, names, ps):
    from gitdb.pack import PackIndexFile
    idx = PackIndexFile(path)
    for p in ps:
        def resolve():
            i = idx.partial_sha_to_index(*bin_args(p))
            return None if i is None else idx.sha(i)
        expect_eq(outcome(resolve), want(names, p), "prefix %s among %s" % (p, [x.hex() for x in sorted(names)]))


def indices(ctx, universe, part, parts):
    d = ctx.fresh_dir()
    n = 0
    for bits in range(part, 1 << len(universe), parts):
        names = [x for i, x in enumerate(universe) if bits >> i & 1]
        ps = prefixes(names, UNIVERSE[bits % 3::3])
        for version in (1, 2):
            n += 1
            path = "%s/pack-%d.idx" % (d, n)
            with open(path, "wb") as f:
                f.write(g.build_idx([(x, 1, 12 + i) for i, x in enumerate(names)], b"p" * 20, version))
            ctx.run("index/%x/v%d" % (bits, version), check_index, path, names, ps)
            ctx.count("prefixes", len(ps))
            if len(names) > 1:
                ctx.distinct("nontrivial", (version, bits))
            os.unlink(path)
            if n % 200 == 0:
                from gitdb.util import mman
                getattr(mman, "collect", int)()
    ctx.sample({"names": [x.hex() for x in names], "prefixes": ps[:5]}, 1)


PLACES = {"L": "loose", "A": "packA", "B": "packB", "l": "alternate/loose", "a": "alternate/pack"}


def build_db(root, dist, versions=(2, 1)):
    """:param dist: {name: string of places}"""
    alt = root + "-alt"
    for r in (root, alt):
        os.makedirs(r + "/pack")
        os.makedirs(r + "/info")
    for name, places in dist.items():
        for pl, r in (("L", root), ("l", alt)):
            if pl in places:
                h = name.hex()
                os.makedirs("%s/%s" % (r, h[:2]), exist_ok=True)
                with open("%s/%s/%s" % (r, h[:2], h[2:]), "wb") as f:
                    f.write(b"")
    for n, (pl, r) in enumerate((("A", root), ("B", root), ("a", alt))):
        names = [x for x, p in dist.items() if pl in p]
        if names:
            ents = [g.E("full", b"blob", b"%d" % i, name=x) for i, x in enumerate(names)]
            g.write_files(r + "/pack", g.build_pack_raw(ents + [g.E("full", b"blob", pl.encode())]), ents, versions[n % 2])
    if any("l" in p or "a" in p for p in dist.values()):
        with open(root + "/info/alternates", "w") as f:
            f.write(alt + "\n")


def check_db(root, dist, ps, case):
    from gitdb.db import GitDB, PackedDB, LooseObjectDB
    names = set(dist)
    db = GitDB(root)
    conv = {"lower": str, "upper": lambda s: s.upper(), "bytes": lambda s: s.encode(),
            "mixed": lambda s: "".join(c.upper() if i % 2 else c for i, c in enumerate(s)),
            "upperbytes": lambda s: s.upper().encode()}[case]
    for p in ps:
        expect_eq(outcome(db.partial_to_complete_sha_hex, conv(p)), want(names, p), "prefix %s of %s" % (p, {k.hex(): v for k, v in dist.items()}))
    packed, loose = {x for x in dist if set(dist[x]) & set("AB")}, {x for x in dist if "L" in dist[x]}
    pdb, ldb = PackedDB(root + "/pack"), LooseObjectDB(root)
    for p in ps:
        expect_eq(outcome(pdb.partial_to_complete_sha, *bin_args(p)), want(packed, p), "packs only: prefix %s" % p)
        expect_eq(outcome(ldb.partial_to_complete_sha_hex, conv(p)), want(loose, p), "loose only: prefix %s" % p)
    # every full name, in arbitrary order, still resolves to itself
    for x in names:
        expect_eq(outcome(db.partial_to_complete_sha_hex, conv(x.hex())), x, "full name")


CASES = ["lower", "upper", "bytes", "mixed", "upperbytes"]


def distributions(ctx, names, combos, fixed, part, parts):
    for n, combo in enumerate(itertools.product(combos, repeat=len(names))):
        if n % parts != part:
            continue
        dist = dict(fixed)
        dist.update({x: c for x, c in zip(names, combo) if c})
        root = ctx.fresh_dir() + "/objects"
        build_db(root, dist)
        ps = prefixes(names + [UNIVERSE[2]])
        cid = "dist/%s/%s" % (names[0].hex()[:6], ",".join(c or "-" for c in combo))
        ctx.run(cid, check_db, root, dist, ps, CASES[n % len(CASES)])
        ctx.count("prefixes", len(ps))
        if len(dist) > 1:
            ctx.distinct("nontrivial", cid)
        if n % 100 < parts:
            from gitdb.util import mman
            getattr(mman, "collect", int)()
    ctx.sample({"distribution": {k.hex(): v for k, v in dist.items()}}, 1)


def many(ctx, count):
    """Larger, ordinary looking databases: every prefix of 4..10 digits"""
    names = [b"\x12\x34" + uniq("m", i)[:18] for i in range(count)] + [uniq("n", i) for i in range(count)]
    dist = {x: ("L", "A", "B", "AB", "La", "l")[i % 6] for i, x in enumerate(names)}
    root = ctx.fresh_dir() + "/objects"
    build_db(root, dist)
    ps = sorted({x.hex()[:k] for x in names for k in range(4, 11)})
    for i in range(0, len(ps), 50):
        ctx.run("many/%d/%d" % (count, i), check_db, root, dist, ps[i:i + 50], CASES[i // 50 % len(CASES)])


def units(tier, seed):
    quick = tier == "quick"
    out = []
    parts = 16 if quick else 32
    for part in range(parts):
        out.append(("indices-%d" % part, indices, dict(universe=UNIVERSE[:12] + UNIVERSE[14:] if quick else UNIVERSE, part=part, parts=parts)))
    combos = ["", "L", "A", "B", "AB", "LA", "a", "l", "LABla"] if quick else ["", "L", "A", "B", "AB", "LA", "a", "l", "la", "Ll", "Aa", "LABla"]
    u = UNIVERSE
    sets = [([u[0], u[1], u[2]], {u[5]: "A"}), ([u[0], u[13], u[4]], {u[7]: "B", u[10]: "L"}),
            ([u[7], u[8], u[9]], {u[11]: "LA"}), ([u[10], u[11], u[12]], {})]
    for k, (names, fixed) in enumerate(sets):
        for part in range(parts // 2):
            out.append(("dist-%d-%d" % (k, part), distributions, dict(names=names, combos=combos, fixed=fixed, part=part, parts=parts // 2)))
    if not quick:
        for part in range(16):
            out.append(("dist4-%d" % part, distributions, dict(names=[u[0], u[1], u[3], u[6]], combos=["", "L", "A", "B", "AB", "a"], fixed={}, part=part, parts=16)))
    out.append(("many", many, dict(count=60 if quick else 150)))
    return out
