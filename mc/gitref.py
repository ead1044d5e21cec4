"""Independent reference implementation of git's object, pack and index formats (see gitformat-pack(5)).

Does not use gitdb. Encoders accept every degree of freedom the formats leave (zlib parameters, length encodings),
decoders are strict.
"""
import binascii
import hashlib
import struct
import zlib

TYPE_IDS = {b"commit": 1, b"tree": 2, b"blob": 3, b"tag": 4}
TYPES = {v: k for k, v in TYPE_IDS.items()}
OFS, REF = 6, 7


def sha1(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p)
    return h.digest()


def canonical(typ, data):
    return typ + b" " + str(len(data)).encode() + b"\0" + data


def obj_sha(typ, data):
    return sha1(canonical(typ, data))


# ------------------------------------------------------------------ zlib
class Z:
    """zlib parameters: level, strategy, memLevel, wbits, flush mode and places"""

    def __init__(self, level=6, strategy=zlib.Z_DEFAULT_STRATEGY, mem=8, wbits=15, flush=None, step=0, lead=0, trail=0):
        self.level, self.strategy, self.mem, self.wbits = level, strategy, mem, wbits
        self.flush, self.step, self.lead, self.trail = flush, step, lead, trail

    def __call__(self, data):
        c = zlib.compressobj(self.level, zlib.DEFLATED, self.wbits, self.mem, self.strategy)
        out = []
        for _ in range(self.lead):
            out.append(c.flush(zlib.Z_FULL_FLUSH))
        if self.flush and self.step:
            for i in range(0, len(data), self.step):
                out.append(c.compress(data[i:i + self.step]))
                out.append(c.flush(self.flush))
        else:
            out.append(c.compress(data))
        for _ in range(self.trail):
            out.append(c.flush(zlib.Z_FULL_FLUSH))
        out.append(c.flush())
        return b"".join(out)

    def __repr__(self):
        return "Z(level=%s strategy=%s mem=%s wbits=%s flush=%s/%s lead=%s trail=%s)" % (
            self.level, self.strategy, self.mem, self.wbits, self.flush, self.step, self.lead, self.trail)


def stored_blocks(data, block, empty_between=0, final_empty=True):
    """A zlib stream made of stored blocks of the given size, with empty blocks in between. zlib's own
    encoder rarely emits these, but every inflater has to accept them"""
    out = [b"\x78\x01"]
    empty = b"\x00\x00\x00\xff\xff"
    pieces = [data[i:i + block] for i in range(0, len(data), block)] if data else []
    for i, p in enumerate(pieces):
        last = i == len(pieces) - 1 and not final_empty
        out.append(struct.pack("<BHH", 1 if last else 0, len(p), len(p) ^ 0xffff) + p)
        if not last:
            out.append(empty * empty_between)
    if final_empty or not pieces:
        out.append(b"\x01\x00\x00\xff\xff")
    out.append(struct.pack(">L", zlib.adler32(data) & 0xffffffff))
    return b"".join(out)


# ------------------------------------------------------------------ varints
def entry_header(type_id, size):
    c = (type_id << 4) | (size & 15)
    size >>= 4
    out = bytearray()
    while size:
        out.append(c | 0x80)
        c = size & 0x7f
        size >>= 7
    out.append(c)
    return bytes(out)


def parse_entry_header(buf, pos):
    c = buf[pos]
    pos += 1
    tid, size, shift = (c >> 4) & 7, c & 15, 4
    while c & 0x80:
        c = buf[pos]
        pos += 1
        size |= (c & 0x7f) << shift
        shift += 7
    return tid, size, pos


def size_varint(n, pad=0):
    """Little endian base 128, optionally with redundant zero groups"""
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n or pad:
            out.append(b | 0x80)
            if not n:
                for i in range(pad - 1):
                    out.append(0x80)
                out.append(0)
                break
        else:
            out.append(b)
            break
    return bytes(out)


def parse_size_varint(buf, pos):
    n = shift = 0
    while True:
        c = buf[pos]
        pos += 1
        n |= (c & 0x7f) << shift
        shift += 7
        if not c & 0x80:
            return n, pos


def ofs_varint(n):
    """Offset encoding of OFS_DELTA (big endian, each continuation adds one)"""
    out = [n & 0x7f]
    n >>= 7
    while n:
        n -= 1
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes(reversed(out))


def parse_ofs_varint(buf, pos):
    c = buf[pos]
    pos += 1
    n = c & 0x7f
    while c & 0x80:
        c = buf[pos]
        pos += 1
        n = ((n + 1) << 7) | (c & 0x7f)
    return n, pos


# ------------------------------------------------------------------ deltas
def op_copy(off, size, mask=None):
    """:param mask: which of the 7 parameter bytes to emit, by default the non-zero ones"""
    esize = 0 if size == 0x10000 else size
    raw = [(off >> s) & 0xff for s in (0, 8, 16, 24)] + [(esize >> s) & 0xff for s in (0, 8, 16)]
    if mask is None:
        mask = sum(1 << i for i, b in enumerate(raw) if b)
    assert all(b == 0 or mask >> i & 1 for i, b in enumerate(raw))
    return bytes([0x80 | mask] + [b for i, b in enumerate(raw) if mask >> i & 1])


def op_insert(data):
    assert 0 < len(data) < 128
    return bytes([len(data)]) + data


def delta(src_size, dst_size, *ops, pad=(0, 0)):
    return size_varint(src_size, pad[0]) + size_varint(dst_size, pad[1]) + b"".join(ops)


class BadDelta(Exception):
    pass


def delta_apply(base, d):
    """Strict application of a delta, as git's patch_delta()"""
    try:
        src, pos = parse_size_varint(d, 0)
        dst, pos = parse_size_varint(d, pos)
    except IndexError:
        raise BadDelta("truncated sizes")
    if src != len(base):
        raise BadDelta("base size")
    out = bytearray()
    try:
        while pos < len(d):
            c = d[pos]
            pos += 1
            if c & 0x80:
                off = size = 0
                for i in range(4):
                    if c >> i & 1:
                        off |= d[pos] << (8 * i)
                        pos += 1
                for i in range(3):
                    if c >> (4 + i) & 1:
                        size |= d[pos] << (8 * i)
                        pos += 1
                size = size or 0x10000
                if off + size > len(base):
                    raise BadDelta("copy range")
                out += base[off:off + size]
            elif c:
                if pos + c > len(d):
                    raise BadDelta("truncated insert")
                out += d[pos:pos + c]
                pos += c
            else:
                raise BadDelta("reserved instruction")
            if len(out) > dst:
                raise BadDelta("too much output")
    except IndexError:
        raise BadDelta("truncated copy")
    if len(out) != dst:
        raise BadDelta("output size")
    return bytes(out)


# ------------------------------------------------------------------ packs
class E:
    """One pack entry. kind: 'full' (typ, data), 'ofs' (base entry number, delta), 'ref' (base name or entry number, delta)
    For deltas, `result` is what it resolves to (bytes), or None if unknown/invalid"""

    def __init__(self, kind, typ=None, data=b"", base=None, name=None, z=None, raw=None, size=None, result=None):
        self.kind, self.typ, self.data, self.base, self.name = kind, typ, data, base, name
        self.z = z or Z()
        self.raw = raw              # compressed bytes to be used literally
        self.size = size            # size to announce, if not the true one
        self.result = result
        self.offset = self.end = self.crc = None


def build_pack(entries, version=2, count=None, trailer=True):
    """:return: bytes of the pack. Sets offset, end, crc and name of all entries. Names of deltas are computed
    from the resolved content if it can be resolved"""
    out = bytearray(b"PACK" + struct.pack(">LL", version, len(entries) if count is None else count))
    resolve_entries(entries)
    for e in entries:
        e.offset = len(out)
        body = e.raw if e.raw is not None else e.z(e.data)
        size = len(e.data) if e.size is None else e.size
        if e.kind == "full":
            hdr = entry_header(TYPE_IDS[e.typ], size)
        elif e.kind == "ofs":
            dist = e.base if isinstance(e.base, int) and e.base < 0 else None
            if dist is None:
                dist = e.offset - entries[e.base].offset
            else:
                dist = -dist
            hdr = entry_header(OFS, size) + ofs_varint(dist)
        elif e.kind == "ref":
            bname = entries[e.base].name if isinstance(e.base, int) else e.base
            hdr = entry_header(REF, size) + bname
        else:
            raise ValueError(e.kind)
        out += hdr + body
        e.end = len(out)
        e.crc = zlib.crc32(bytes(out[e.offset:e.end])) & 0xffffffff
    if trailer:
        out += sha1(bytes(out))
    return bytes(out)


def build_pack_raw(entries, version=2):
    """As build_pack, but entries are taken as they are: deltas need a name and are not resolved. Linear in the number of entries"""
    out = [b"PACK" + struct.pack(">LL", version, len(entries))]
    pos = 12
    for e in entries:
        e.offset = pos
        body = e.raw if e.raw is not None else e.z(e.data)
        size = len(e.data) if e.size is None else e.size
        if e.kind == "full":
            hdr = entry_header(TYPE_IDS[e.typ], size)
        elif e.kind == "ofs":
            hdr = entry_header(OFS, size) + ofs_varint(pos - entries[e.base].offset if e.base >= 0 else -e.base)
        elif e.kind == "dist":
            hdr = entry_header(OFS, size) + ofs_varint(e.base)
        else:
            hdr = entry_header(REF, size) + (entries[e.base].name if isinstance(e.base, int) else e.base)
        out.append(hdr + body)
        pos += len(out[-1])
        e.end = pos
        e.crc = zlib.crc32(out[-1]) & 0xffffffff
    data = b"".join(out)
    return data + sha1(data)


def write_files(directory, pack, entries, version=2):
    """Write a pack and an index of all of its named entries. :return: path of the pack"""
    idx = build_idx([(e.name, e.crc, e.offset) for e in entries if e.name is not None], pack[-20:], version)
    stem = directory + "/pack-" + pack[-20:].hex()
    for suffix, data in ((".idx", idx), (".pack", pack)):
        with open(stem + suffix, "wb") as f:
            f.write(data)
    return stem + ".pack"


def resolve_entries(entries):
    """Compute type, result and name of every entry where possible (any order of references between entries)"""
    left = list(range(len(entries)))
    rtype = {}
    while left:
        progress = []
        for i in left:
            e = entries[i]
            if e.kind == "full":
                e.result = e.data
                rtype[i] = e.typ
            else:
                b = e.base
                if not isinstance(b, int):
                    cand = [j for j in rtype if entries[j].name == b]
                    if not cand:
                        continue
                    b = cand[0]
                if b < 0 or b not in rtype:
                    continue
                if entries[b].result is None:
                    rtype[i] = rtype[b]
                    progress.append(i)
                    continue
                try:
                    e.result = delta_apply(entries[b].result, e.data)
                except BadDelta:
                    e.result = None
                rtype[i] = rtype[b]
            e.typ = rtype[i]
            if e.name is None and e.result is not None:
                e.name = obj_sha(e.typ, e.result)
            progress.append(i)
        if not progress:
            break
        left = [i for i in left if i not in progress]


def build_idx(items, pack_sha, version=2, wide=(), reverse=False):
    """:param items: iterable of (name, crc, offset)
    :param wide: names whose offsets are to be in 64-bit form, whether they need it or not
    :param reverse: if True, the 64-bit slots are in reverse order"""
    items = sorted(items, key=lambda t: t[0])
    fan = [0] * 256
    for name, crc, ofs in items:
        fan[name[0]] += 1
    for i in range(1, 256):
        fan[i] += fan[i - 1]
    out = bytearray()
    if version == 2:
        out += b"\xfftOc" + struct.pack(">L", 2)
        out += struct.pack(">256L", *fan)
        big = []
        for name, crc, ofs in items:
            out += name
        for name, crc, ofs in items:
            out += struct.pack(">L", crc)
        nbig = sum(ofs > 0x7fffffff or name in wide for name, crc, ofs in items)
        for name, crc, ofs in items:
            if ofs > 0x7fffffff or name in wide:
                out += struct.pack(">L", 0x80000000 | (nbig - 1 - len(big) if reverse else len(big)))
                big.append(ofs)
            else:
                out += struct.pack(">L", ofs)
        for ofs in reversed(big) if reverse else big:
            out += struct.pack(">Q", ofs)
    else:
        out += struct.pack(">256L", *fan)
        for name, crc, ofs in items:
            out += struct.pack(">L", ofs) + name
    out += pack_sha
    out += sha1(bytes(out))
    return bytes(out)


def write_pack(directory, entries, version=2, stem=None, items=None):
    """Write pack and index files. :return: path of the pack"""
    import os
    data = build_pack(entries)
    if items is None:
        items = [(e.name, e.crc, e.offset) for e in entries if e.name is not None]
    idx = build_idx(items, data[-20:], version)
    stem = os.path.join(directory, stem or "pack-" + data[-20:].hex())
    with open(stem + ".idx", "wb") as f:
        f.write(idx)
    with open(stem + ".pack", "wb") as f:
        f.write(data)
    return stem + ".pack"


class FormatError(Exception):
    pass


def parse_pack(data):
    """Strictly parse a pack. :return: list of dicts: offset, end, type_id, size, base, data, crc"""
    if data[:4] != b"PACK":
        raise FormatError("signature")
    version, count = struct.unpack(">LL", data[4:12])
    if version != 2:
        raise FormatError("version")
    if sha1(data[:-20]) != data[-20:]:
        raise FormatError("trailer")
    pos, out = 12, []
    for i in range(count):
        start = pos
        tid, size, pos = parse_entry_header(data, pos)
        base = None
        if tid == OFS:
            dist, pos = parse_ofs_varint(data, pos)
            base = start - dist
        elif tid == REF:
            base = data[pos:pos + 20]
            pos += 20
        elif tid not in TYPES:
            raise FormatError("type %i" % tid)
        z = zlib.decompressobj()
        try:
            content = z.decompress(data[pos:-20])
        except zlib.error as e:
            raise FormatError("zlib: %s" % e)
        if not z.eof:
            raise FormatError("unfinished zlib stream")
        pos = len(data) - 20 - len(z.unused_data)
        if len(content) != size:
            raise FormatError("size %i announced, %i found" % (size, len(content)))
        out.append({"offset": start, "end": pos, "type_id": tid, "size": size, "base": base, "data": content,
                    "crc": zlib.crc32(data[start:pos]) & 0xffffffff})
    if pos != len(data) - 20:
        raise FormatError("garbage after last entry")
    return out


def parse_idx(data):
    """Strictly parse an index. :return: (version, [(name, crc or None, offset)] in file order, pack sha)"""
    if sha1(data[:-20]) != data[-20:]:
        raise FormatError("index trailer")
    v2 = data[:4] == b"\xfftOc"
    if v2 and struct.unpack(">L", data[4:8])[0] != 2:
        raise FormatError("index version")
    p = 8 if v2 else 0
    fan = struct.unpack(">256L", data[p:p + 1024])
    p += 1024
    n = fan[255]
    if list(fan) != sorted(fan):
        raise FormatError("fan-out not monotonic")
    items = []
    if v2:
        names = [data[p + i * 20:p + i * 20 + 20] for i in range(n)]
        p += n * 20
        crcs = struct.unpack(">%dL" % n, data[p:p + 4 * n])
        p += 4 * n
        ofs = list(struct.unpack(">%dL" % n, data[p:p + 4 * n]))
        p += 4 * n
        nbig = len([o for o in ofs if o & 0x80000000])
        big = struct.unpack(">%dQ" % nbig, data[p:p + 8 * nbig])
        p += 8 * nbig
        used = [o & 0x7fffffff for o in ofs if o & 0x80000000]
        if sorted(used) != list(range(nbig)):
            raise FormatError("64 bit table")
        ofs = [big[o & 0x7fffffff] if o & 0x80000000 else o for o in ofs]
        items = list(zip(names, crcs, ofs))
    else:
        for i in range(n):
            o, = struct.unpack(">L", data[p:p + 4])
            items.append((data[p + 4:p + 24], None, o))
            p += 24
    if p != len(data) - 40:
        raise FormatError("index length")
    names = [t[0] for t in items]
    if names != sorted(names):
        raise FormatError("index order")
    for b in range(256):
        if fan[b] != len([x for x in names if x[0] <= b]):
            raise FormatError("fan-out entry %i" % b)
    return (2 if v2 else 1), items, data[-40:-20]


def parse_loose(data):
    """Strictly parse the content of a loose object file. :return: (type, content)"""
    z = zlib.decompressobj()
    raw = z.decompress(data)
    if not z.eof or z.unused_data or z.unconsumed_tail:
        raise FormatError("not exactly one zlib stream")
    head, sep, content = raw.partition(b"\0")
    typ, _, size = head.partition(b" ")
    if not sep or typ not in TYPE_IDS or str(int(size)).encode() != size or int(size) != len(content):
        raise FormatError("header %r" % head)
    return typ, content


def parse_objects(pack_bytes):
    """:return: {name: (type, content)} of a self-contained pack"""
    ents = parse_pack(pack_bytes)
    by_ofs = {e["offset"]: e for e in ents}
    res = {}
    done = {}
    left = list(ents)
    while left:
        rest = []
        for e in left:
            if e["type_id"] in TYPES:
                r = TYPES[e["type_id"]], e["data"]
            else:
                b = e["base"]
                r0 = done.get(b) if isinstance(b, int) else res.get(b)
                if r0 is None:
                    rest.append(e)
                    continue
                r = r0[0], delta_apply(r0[1], e["data"])
            done[e["offset"]] = r
            res[obj_sha(*r)] = r
        if len(rest) == len(left):
            raise FormatError("unresolvable deltas")
        left = rest
    return res


def hexs(b):
    return binascii.hexlify(b).decode()
