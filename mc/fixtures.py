"""Shared fixture material: contents and zlib encodings"""
import random
import zlib

from mc import gitref as g
from mc.gitref import Z


def content(kind, size, seed=1):
    """Deterministic content of the given class"""
    if kind == "zero":
        return b"\0" * size
    if kind == "rand":
        return random.Random(seed * 1000003 + size).randbytes(size)
    if kind == "text":
        unit = b"tree 1234 blob commit\0 the quick brown fox %d\n"
        out = bytearray()
        i = 0
        while len(out) < size:
            out += unit % (i * 7919 % 100003)
            i += 1
        return bytes(out[:size])
    if kind == "mix":           # compressible first, then incompressible, then compressible
        a = size // 3
        return content("zero", a) + content("rand", a, seed) + content("text", size - 2 * a)
    raise ValueError(kind)


ZS = {
    "l6": Z(6), "l0": Z(0), "l1": Z(1), "l9": Z(9),
    "m1": Z(9, mem=1), "fixed": Z(6, strategy=zlib.Z_FIXED), "huff": Z(6, strategy=zlib.Z_HUFFMAN_ONLY),
    "rle": Z(6, strategy=zlib.Z_RLE), "w9": Z(6, wbits=9),
    "sync1k": Z(6, flush=zlib.Z_SYNC_FLUSH, step=1000), "full7": Z(1, flush=zlib.Z_FULL_FLUSH, step=7),
    "lead1": Z(6, lead=1), "lead40": Z(6, lead=40), "lead3000": Z(6, lead=3000),
    "trail1": Z(6, trail=1), "trail40": Z(6, trail=40), "trail3000": Z(6, trail=3000),
}


class Stored:
    def __init__(self, block, between=0, final=True):
        self.a = (block, between, final)

    def __call__(self, data):
        return g.stored_blocks(data, *self.a)


ZS["stored1"] = Stored(1)
ZS["stored100e"] = Stored(100, 3)
ZS["stored64k"] = Stored(65535, 0, False)
