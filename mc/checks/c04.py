"""C04: a delta that does not fit is refused, never answered with bytes"""
import itertools

from mc import gitref as g
from mc.core import expect, expect_eq, short
from mc.deltas import uniq, encode, prog_len
from mc.fixtures import content, ZS

PROPERTY = "C04"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of delta bodies and of all single edits of valid deltas, executed by the real code against a strict reference interpreter"
LEVEL_NOTE = ("Exhaustive within the stated bounds. An offset base in the middle of another entry counts as absent only if it does not parse as an entry.")
RULE = ("Exhaustive enumeration of delta bodies (all byte strings up to a length over an alphabet of opcodes) and of all single "
        "edits (every prefix, every byte set to every value, every deletion and insertion) of valid delta programs at every level of a chain. "
        "An independent strict interpreter says whether the delta fits: if it does not, every way of reading must raise, also when repeated; "
        "if it does, the content must be exact. Non-trivial: distinct deltas which do not fit.")
BOUNDS = {"quick": "bodies of <=4 bytes over 9 opcodes x 6 declared sizes; edits of 4 programs (<=24 bytes) at each level of chains of depth 1..3, "
                   "ofs and ref links; deltas around and beyond 512 bytes",
          "thorough": "bodies of <=5 bytes over 11 opcodes; edits at each level of chains of depth 1..4, pairs of edits for the shortest program"}
MEM_LIMIT = 3 << 30


def refused(fn, what):
    try:
        r = fn()
    except Exception:
        return
    expect(False, "%s answered %s in place of an exception", what, short(r))


def check(open_stream, want, what="", full=False):
    """:param want: None if the delta must be refused, the content otherwise"""
    if want is None:
        s = None
        try:
            s = open_stream()
        except Exception:
            return
        refused(lambda: bytes(s.read()), what + "read()")
        refused(lambda: bytes(s.read()), what + "second read()")
        if full:
            refused(lambda: bytes(s.read(1)), what + "read(1) after failure")
            refused(lambda: open_stream().size, what + "size")
            refused(lambda: bytes(open_stream().read(1)), what + "read(1)")
            s = open_stream()
            try:
                s.seek(0) if hasattr(s, "seek") else s.stream.seek(0)
            except Exception:
                pass
            refused(lambda: bytes(s.read()), what + "read() after seek")
    else:
        expect_eq(bytes(open_stream().read()), want, what + "content")


def apply_chain(base, deltas):
    cur = base
    for d in deltas:
        try:
            cur = g.delta_apply(cur, d)
        except g.BadDelta:
            return None
        if len(cur) > 1 << 24:
            return None
    return cur


class Batch:
    """Packs with very many chains"""

    def __init__(self, ctx, prefix, limit=1500):
        self.ctx, self.prefix, self.limit = ctx, prefix, limit
        self.entries, self.todo = [], []

    def add(self, label, base, deltas, kinds, sizes=None, z=ZS["l1"], full=False, want="compute", perm=None):
        n = len(self.entries)
        self.entries.append(g.E("full", b"blob", base, name=uniq(self.prefix, n), z=z, size=(sizes or {}).get(0)))
        for i, d in enumerate(deltas):
            # offset to the previous one, or reference by name
            self.entries.append(g.E(kinds[i % len(kinds)], data=d, base=n + i, name=uniq(self.prefix, n + i + 1), z=z,
                                    size=(sizes or {}).get(i + 1)))
        if want == "compute":
            want = apply_chain(base, deltas)
        self.todo.append((label, self.entries[-1].name, want, full))
        if want is None:
            self.ctx.distinct("nontrivial", repr((base, deltas, kinds, sizes)))
        if len(self.todo) >= self.limit:
            self.flush()

    def flush(self):
        if not self.todo:
            return
        from gitdb.pack import PackEntity
        data = g.build_pack_raw(self.entries)
        entity = PackEntity(g.write_files(self.ctx.fresh_dir(), data, self.entries))
        for label, name, want, full in self.todo:
            self.ctx.run("%s/%s" % (self.prefix, label), check, lambda: entity.stream(name), want, "", full)
            if want is None:
                self.ctx.count("must_be_refused")
            else:
                self.ctx.count("must_succeed")
        self.entries, self.todo = [], []


def bodies(ctx, alphabet, depth, dsts, first, kind):
    """All delta bodies over the alphabet which start with the given byte"""
    base = b"abc"
    b = Batch(ctx, "bodies-%s" % kind)
    lengths = range(1, depth + 1) if first is not None else (0,)
    for k in lengths:
        for rest in itertools.product(alphabet, repeat=max(k - 1, 0)):
            body = bytes(([first] if first is not None else []) + list(rest))
            for src, dst in dsts:
                b.add("%d>%d:%s" % (src, dst, body.hex()), base, [g.size_varint(src) + g.size_varint(dst) + body], (kind,),
                      full=k <= 2)
    b.flush()
    ctx.sample({"base": repr(base), "body": body.hex(), "declared": [src, dst]}, 1)


PROGRAMS = {
    "ci": (b"0123456789abcdef", (("c", 3, 9), ("i", b"tail!"))),
    "ic": (b"0123456789abcdef", (("i", b"head"), ("c", 10, 6))),
    "c2": (bytes(range(256)) * 3, (("c", 0x102, 0x105), ("c", 0, 2), ("c", 767, 1))),
    "ii": (b"", (("i", b"a"), ("i", b"bc"))),
}


def edits(delta, values):
    for n in range(len(delta)):
        yield "prefix%d" % n, delta[:n]
        yield "del%d" % n, delta[:n] + delta[n + 1:]
        for v in range(256):
            if v != delta[n]:
                yield "set%d=%02x" % (n, v), delta[:n] + bytes([v]) + delta[n + 1:]
    for n in range(len(delta) + 1):
        for v in values:
            yield "ins%d=%02x" % (n, v), delta[:n] + bytes([v]) + delta[n:]
        yield "dup%d" % n, delta + delta[n:] if n < len(delta) else delta + b"\0"


VALUES = (0, 1, 2, 0x41, 0x7f, 0x80, 0x81, 0x90, 0x91, 0xb3, 0xff)


def chain_deltas(base, prog, depth, level):
    """A valid chain in which the delta number `level` (1 is applied first) is the given program"""
    deltas, cur = [], base
    if level > 1:
        # the base of the program has to come out of the levels before
        for i in range(1, level):
            n = len(cur)
            deltas.append(encode([("c", 0, n)] if n else [], n) if i < level - 1 or not n else
                          encode([("i", base[:1])] + ([("c", 1, n - 1)] if n > 1 else []), n))
    deltas.append(encode(prog, len(cur)))
    cur = g.delta_apply(cur, deltas[-1])
    for i in range(level, depth):
        n = len(cur)
        deltas.append(encode([("i", b"^"), ("c", 0, n)], n))
        cur = g.delta_apply(cur, deltas[-1])
    return deltas


def mutations(ctx, pname, depth, level, kinds):
    base, prog = PROGRAMS[pname]
    deltas = chain_deltas(base, prog, depth, level)
    assert apply_chain(base, deltas) is not None
    b = Batch(ctx, "edit-%s-%d.%d-%s" % (pname, depth, level, "-".join(kinds)))
    for label, d in edits(deltas[level - 1], VALUES):
        b.add(label, base, deltas[:level - 1] + [d] + deltas[level:], kinds, full=label[0] in "pd")
    b.flush()
    ctx.sample({"program": repr(prog), "depth": depth, "level": level, "edit": label}, 1)


def double_edits(ctx, part, parts):
    base, prog = b"abcdef", (("c", 2, 3), ("i", b"X"))
    d0 = encode(prog, len(base))
    b = Batch(ctx, "edit2")
    seen = set()
    for n, (l1, d1) in enumerate(edits(d0, (0, 0x80))):
        if n % parts != part:
            continue
        for i in range(len(d1)):
            for v in VALUES:
                d = d1[:i] + bytes([v]) + d1[i + 1:]
                if d not in seen:
                    seen.add(d)
                    b.add("%s+set%d=%02x" % (l1, i, v), base, [d], ("ofs",))
    b.flush()


def long_deltas(ctx, total, kind, zname):
    """Edits at the first and last instruction of deltas around the 512 bytes read first, and of long deltas"""
    base = content("text", 3000, ctx.seed)
    for last in (("c", 0x102, 0x304), ("i", b"0123456789" * 3)):
        fill, prog = total, []
        while fill > 0:
            k = min(100, fill)
            prog.append(("i", b"A" * k))
            fill -= k + 1
        prog = prog + [last]
        d = encode(prog, len(base))
        b = Batch(ctx, "long-%d-%s-%s-%s" % (total, last[0], kind, zname), limit=300)
        b.add("valid", base, [d], (kind,), z=ZS[zname])
        hdr = len(g.size_varint(len(base))) + len(g.size_varint(prog_len(prog)))
        for n in sorted(set(list(range(max(hdr, 500), min(len(d), 525))) + list(range(len(d) - 34, len(d))))):
            b.add("prefix%d" % n, base, [d[:n]], (kind,), z=ZS[zname])
        for v in VALUES:
            b.add("append%02x" % v, base, [d + bytes([v])], (kind,), z=ZS[zname])
        for dd in (-1, 1, 128, -128):
            b.add("dst%+d" % dd, base, [encode(prog, len(base), prog_len(prog) + dd)], (kind,), z=ZS[zname], full=True)
            b.add("src%+d" % dd, base, [encode(prog, len(base) + dd, prog_len(prog))], (kind,), z=ZS[zname], full=True)
        b.add("copyend", base, [encode(prog + [("c", len(base) - 1, 2)], len(base))], (kind,), z=ZS[zname])
        b.add("copybehind", base, [encode(prog + [("c", len(base), 1)], len(base))], (kind,), z=ZS[zname])
        b.add("copyfar", base, [encode(prog + [("c", 0xff000000, 1)], len(base))], (kind,), z=ZS[zname])
        b.add("copy64k", base, [encode(prog, len(base), prog_len(prog) + 0x10000) + b"\x80"], (kind,), z=ZS[zname])
        # the same below another, valid delta
        n = prog_len(prog)
        top = encode([("c", 0, n)], n)
        for label, bad in (("reserved", d + b"\0"), ("cut", d[:-1]), ("dst", encode(prog, len(base), n + 1)), ("more", d + b"\x01x")):
            b.add("below/" + label, base, [bad, top], (kind,), z=ZS[zname], full=True)
            b.add("belowfit/" + label, base, [bad, encode([("c", 0, n)], n + 1)], (kind,), z=ZS[zname], full=True)
        b.flush()


def entry_sizes(ctx, kind):
    """The size in the entry header is not the size of the stored data"""
    b = Batch(ctx, "sizes-%s" % kind)
    base, prog = PROGRAMS["ci"]
    d = encode(prog, len(base))
    n = prog_len(prog)
    top = encode([("c", 0, n)], n)
    for zname in ("l6", "l0", "stored1", "sync1k"):
        for diff in list(range(-len(d) + 1, 0)) + [1, 2, 7, 100, 1000]:
            b.add("delta%+d/%s" % (diff, zname), base, [d], (kind,), sizes={1: len(d) + diff}, want=None, full=True, z=ZS[zname])
            b.add("lower%+d/%s" % (diff, zname), base, [d, top], (kind,), sizes={1: len(d) + diff}, want=None, full=True, z=ZS[zname])
            b.add("upper%+d/%s" % (diff, zname), base, [d, top], (kind,), sizes={2: max(0, len(top) + diff)}, want=None, full=True, z=ZS[zname])
        for diff in list(range(-len(base), 0)) + [1, 2, 100, 5000]:
            b.add("base%+d/%s" % (diff, zname), base, [d], (kind,), sizes={0: len(base) + diff}, want=None, full=True, z=ZS[zname])
            # announced and delta agree, but the data is not there
            if diff > 0:
                d2 = encode(prog, len(base) + diff)
                b.add("basedecl%+d/%s" % (diff, zname), base, [d2], (kind,), sizes={0: len(base) + diff}, want=None, full=True, z=ZS[zname])
                # also below larger intermediate results
                d3 = encode([("i", b"x" * 100)] * 60, n)
                b.add("basedeclbig%+d/%s" % (diff, zname), base, [d2, d3], (kind,), sizes={0: len(base) + diff}, want=None, full=True,
                      z=ZS[zname])
    b.flush()


def bases(ctx, version):
    """Bases that are not there, at each level of a chain; chains without end"""
    from gitdb.pack import PackEntity
    some = g.E("full", b"blob", b"some object", name=uniq("some"))
    d = encode([("c", 0, 4)], 11)
    d4 = encode([("i", b"n"), ("c", 0, 3)], 4)
    e4 = encode([("i", b"n")], 0)

    def run(label, ents, bad, good=()):
        data = g.build_pack_raw(ents)
        entity = PackEntity(g.write_files(ctx.fresh_dir(), data, ents, version))
        for i in bad:
            ctx.distinct("nontrivial", label + str(i))
            ctx.run("bases/v%d/%s/%d/read" % (version, label, i), check, lambda: entity.stream(ents[i].name), None, "", True)
            if "dist" not in label:         # the header of what lies there may look fine
                ctx.run("bases/v%d/%s/%d/info" % (version, label, i), refused, lambda: repr(entity.info(ents[i].name).size), "info")
        for i, want in good:
            ctx.run("bases/v%d/%s/%d/ok" % (version, label, i), check, lambda: entity.stream(ents[i].name), want)

    def link(kind, data, base, *name):
        return g.E(kind, data=data, base=base, name=uniq(*name))
    good = [(0, b"some object"), (1, b"some")]
    ok = link("ofs", d, 0, "ok")
    for absent in (uniq("absent"), b"\0" * 20, b"\xff" * 20, some.name[:19] + bytes([some.name[19] ^ 1])):
        ref = link("ref", d, absent, "r")
        run("absent-%s" % absent.hex()[:4], [some, ok, ref], [2], good)
        for kinds in itertools.product(("ofs", "ref"), repeat=2):
            run("absent-%s-%s" % (absent.hex()[:4], "-".join(kinds)),
                [some, ok, ref, link(kinds[0], d4, 2, "r2"), link(kinds[1], d4, 3, "r3")], [2, 3, 4], good)
    # reference cycles
    for n in (1, 2, 3, 5):
        ents = [some, ok] + [link("ref", d4, 2 + (i + 1) % n, "cy", i) for i in range(n)]
        run("cycle%d" % n, ents, range(2, 2 + n), good)
        # a chain that leads into the cycle, through both kinds of links
        for kind in ("ofs", "ref"):
            run("intocycle%d-%s" % (n, kind), ents + [link(kind, d4, 2, "in"), link("ofs", d4, 2 + n, "in2")], range(2, 4 + n), good)
    # mixed cycle: an offset delta on a reference delta on the offset delta
    run("mixedcycle", [some, ok, link("ref", d4, 3, "a"), link("ofs", d4, 2, "b")], [2, 3], good)
    run("mixedcycle3", [some, ok, link("ref", d4, 4, "a"), link("ofs", d4, 2, "b"), link("ofs", d4, 3, "c")], [2, 3, 4], good)
    # offsets which lead nowhere: itself, into the header, before the file
    probe = [some, ok, link("ofs", d, -1, "o")]
    g.build_pack_raw(probe)
    at = probe[2].offset
    # (a distance to the middle of another entry cannot be told from a proper one without knowing all entries)
    for dist in [0] + list(range(at - 11, at + 20)) + [at + 127, at + 128, 1 << 20, 1 << 31, 1 << 32, 1 << 40]:
        for body, what in ((d, "d"), (e4, "e")):
            run("dist%d%s" % (dist, what), [some, ok, link("dist", body, dist, "o"), link("ofs", d4, 2, "o2"), link("ref", d4, 2, "o3")],
                [2, 3, 4], good)


def units(tier, seed):
    quick = tier == "quick"
    alphabet = [0, 1, 2, 0x41, 0x80, 0x81, 0x90, 0x91, 0xff] if quick else [0, 1, 2, 3, 0x41, 0x80, 0x81, 0x90, 0x91, 0xb0, 0xff]
    depth = 4 if quick else 5
    dsts = [(3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (2, 2), (4, 2)]
    out = []
    for first in [None] + alphabet:
        out.append(("bodies-%s" % first, bodies, dict(alphabet=alphabet, depth=depth, dsts=dsts, first=first, kind="ofs")))
        out.append(("bodies3-%s" % first, bodies, dict(alphabet=alphabet, depth=depth - 1, dsts=dsts, first=first, kind="ref")))
    for pname in PROGRAMS:
        for dep in ((1, 2, 3) if quick else (1, 2, 3, 4)):
            for level in range(1, dep + 1):
                for kinds in ([("ofs",), ("ref",)] + ([("ofs", "ref"), ("ref", "ofs")] if dep > 1 else [])):
                    if quick and dep == 3 and kinds not in (("ofs",), ("ref", "ofs")):
                        continue
                    out.append(("edit-%s-%d.%d-%s" % (pname, dep, level, "-".join(kinds)), mutations,
                                dict(pname=pname, depth=dep, level=level, kinds=kinds)))
    if not quick:
        for part in range(16):
            out.append(("edit2-%d" % part, double_edits, dict(part=part, parts=16)))
    for total in (470, 505, 510, 515, 1024, 5000) if quick else list(range(470, 530, 4)) + [1024, 5000, 70000]:
        for kind, zname in (("ofs", "l6"), ("ref", "l0")):
            out.append(("long-%d-%s" % (total, kind), long_deltas, dict(total=total, kind=kind, zname=zname)))
    for kind in ("ofs", "ref"):
        out.append(("sizes-" + kind, entry_sizes, dict(kind=kind)))
    for version in (1, 2):
        out.append(("bases-v%d" % version, bases, dict(version=version)))
    return out
