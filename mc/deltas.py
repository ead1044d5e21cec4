"""Delta programs and chains shared by C03, C04 and C09"""
import itertools

from mc import gitref as g


def uniq(*key):
    """A made up, unique object name. gitdb never checks names against content when reading"""
    return g.sha1(repr(key).encode())


def prog_len(prog):
    return sum(p[2] if p[0] == "c" else len(p[1]) for p in prog)


def encode(prog, src_size, dst_size=None, pad=(0, 0)):
    ops = [g.op_copy(p[1], p[2], p[3] if len(p) > 3 else None) if p[0] == "c" else g.op_insert(p[1]) for p in prog]
    return g.delta(src_size, prog_len(prog) if dst_size is None else dst_size, *ops, pad=pad)


def all_programs(base_len, max_ops, inserts=(b"X", b"YZ")):
    """Every sequence of up to max_ops instructions: all copy ranges and the given inserts"""
    alpha = [("c", o, n) for o in range(base_len) for n in range(1, base_len - o + 1)] + [("i", s) for s in inserts]
    for k in range(max_ops + 1):
        yield from itertools.product(alpha, repeat=k)


def steps(size):
    """A small alphabet of qualitatively different deltas for a base of the given size: (name, program)"""
    out = [("grow", (("i", b"<"),) + ((("c", 0, size), ("c", 0, size)) if size else ()) + (("i", b">"),)),
           ("empty", ()),
           ("new", (("i", b"entirely new"),))]
    if size:
        out.append(("same", (("c", 0, size),)))
        out.append(("tail", (("c", size - 1, 1),)))
    if size > 2:
        out.append(("shrink", (("c", 1, size // 2),)))
        out.append(("swap", (("c", size // 2, size - size // 2), ("i", b"-"), ("c", 0, size // 2))))
    return out


def check_entity(entity, name, typ, data, what, expect, expect_eq, pieces=False, again=False):
    """All single-object queries of a PackEntity"""
    i = entity.info(name)
    expect_eq((bytes(i.binsha), bytes(i.type), i.size), (name, typ, len(data)), what + ": info")
    s = entity.stream(name)
    expect_eq((bytes(s.binsha), bytes(s.type)), (name, typ), what + ": stream")
    if pieces:
        got = b"".join(iter(lambda: bytes(s.read(pieces)), b""))
    else:
        expect_eq(s.size, len(data), what + ": size before reading")
        got = bytes(s.read())
    expect_eq(got, data, what + ": content")
    expect_eq(s.size, len(data), what + ": size after reading")
    if again:
        expect_eq(bytes(s.read(10)), b"", what + ": read at the end")
