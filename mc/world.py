"""Objects directories changed by somebody else, together with the model of what is in them"""
import os
import shutil

from mc import gitref as g
from mc.fixtures import content
from mc.inputs import loose_path

# name sharing is irrelevant here, see C06. Sizes: empty, small, larger than a chunk of the decompressor
OBJECTS = [(b"blob", b"object zero"), (b"tree", b""), (b"commit", content("mix", 5000)), (b"blob", b"object three, similar to object zero"), (b"tag", b"t")]
NAMES = [g.obj_sha(*o) for o in OBJECTS]
MODEL = dict(zip(NAMES, OBJECTS))
_images = {}
EPOCH = 1500000000


def image(members, style, version=2):
    """:return: (stem, pack, idx) of a pack of the given objects (indices)"""
    key = (tuple(members), style, version)
    if key not in _images:
        ents = []
        for n, i in enumerate(members):
            typ, data = OBJECTS[i]
            if style == "full" or n == 0:
                ents.append(g.E("full", typ, data))
            else:
                # as a delta: same type needed, hence a hidden base of this type
                base = data[:3] + b" base of %d" % i
                ents.append(g.E("full", typ, base))
                k = min(3, len(data))
                ops = ([g.op_copy(0, k)] if k else []) + [g.op_insert(data[j:j + 100]) for j in range(k, len(data), 100)]
                ents.append(g.E("ofs" if style == "ofs" else "ref", data=g.delta(len(base), len(data), *ops), base=len(ents) - 1))
        pack = g.build_pack(ents)
        items = [(e.name, e.crc, e.offset) for e in ents]
        _images[key] = ("pack-" + pack[-20:].hex(), pack, g.build_idx(items, pack[-20:], version), {e.name: e for e in ents})
        for e in ents:
            if e.name not in MODEL:
                HIDDEN[e.name] = (e.typ, e.result)
    return _images[key]


HIDDEN = {}     # bases in packs of deltas


class Dir:
    """An objects directory"""
    tick = 0

    def __init__(self, path, packdir=True):
        self.path = path
        self.loose = set()              # names
        self.packs = {}                 # tag: {name}
        self.alternates = []            # (line, Dir or None)
        self.exists = False
        self.packdir = packdir

    def create(self):
        os.makedirs(self.path)
        self.exists = True
        if self.packdir:
            os.makedirs(self.path + "/pack")
            self._touch()
        return self

    def destroy(self):
        shutil.rmtree(self.path)
        self.exists, self.loose, self.packs, self.alternates = False, set(), {}, []

    def _touch(self, back=False):
        """Modification times have a granularity; what is promised is promised for changes which can be told
        :param back: the clock was set back"""
        Dir.tick += 1
        # several changes within a second
        t = EPOCH * 10 ** 9 + (-Dir.tick if back else Dir.tick) * 4 * 10 ** 6
        os.utime(self.path + "/pack", ns=(t, t))

    def add_loose(self, i):
        p = os.path.join(self.path, loose_path(NAMES[i]))
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p + ".t", "wb") as f:
                f.write(g.Z(1)(g.canonical(*OBJECTS[i])))
            os.chmod(p + ".t", 0o444)
            os.rename(p + ".t", p)
        self.loose.add(NAMES[i])

    def del_loose(self, i):
        os.unlink(os.path.join(self.path, loose_path(NAMES[i])))
        self.loose.discard(NAMES[i])

    def add_pack(self, tag, members, style="full", version=2, order="pack"):
        stem, pack, idx, ents = image(members, style, version)
        d = self.path + "/pack"
        os.makedirs(d, exist_ok=True)
        self.packdir = True
        for ext, data in ((".pack", pack), (".idx", idx)) if order == "pack" else ((".idx", idx), (".pack", pack)):
            with open("%s/%s%s" % (d, stem, ext), "wb") as f:
                f.write(data)
        self._touch()
        self.packs[tag] = (stem, set(ents))

    def del_pack(self, tag, exts=(".pack", ".idx")):
        stem = self.packs.pop(tag)[0]
        for ext in exts:
            os.unlink("%s/pack/%s%s" % (self.path, stem, ext))
        self._touch()

    def repack(self, tag, members, style="ofs"):
        """All loose objects and packs into one"""
        for t in list(self.packs):
            if t != tag:
                self.del_pack(t)
        if tag not in self.packs:
            self.add_pack(tag, members, style)
        for i in members:
            if NAMES[i] in self.loose:
                self.del_loose(i)

    def set_alternates(self, entries, raw=None):
        """:param entries: [(line, Dir or None if it is no directory)]"""
        self.alternates = entries
        p = self.path + "/info/alternates"
        if not entries and raw is None:
            if os.path.exists(p):
                os.unlink(p)
            return
        os.makedirs(self.path + "/info", exist_ok=True)
        text = "".join(line + "\n" for line, _ in entries) if raw is None else raw
        with open(p, "wb") as f:
            f.write(os.fsencode(text))

    def visible(self, seen=()):
        """:return: list of names, one for each copy"""
        return [n for _, _, n in self.copies(seen)]

    def copies(self, seen=()):
        """:return: list of (directory, pack or None, name)"""
        out = []
        if self.exists and self not in seen:
            out += [(self.path, None, n) for n in sorted(self.loose)]
            for tag, (stem, names) in self.packs.items():
                out += [(self.path, tag, n) for n in sorted(names)]
            done = []
            for line, d in self.alternates:
                if d is not None and d not in done:
                    done.append(d)
                    out += d.copies(seen + (self,))
        return out


def known(name):
    return MODEL.get(name) or HIDDEN[name]
