"""C23: a failed or interrupted operation leaves no trace in a handle"""
import errno
import gc
import os
import shutil
import sys
from io import BytesIO

from mc import fsx, gitref as g, world
from mc.core import HarnessError, Violation, expect, expect_eq
from mc.dbcheck import check_db, debris, disk, release_maps
from mc.fixtures import content
from mc.inputs import own_fds
from mc.world import Dir, NAMES

PROPERTY = "C23"
LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive enumeration of fault points on the real code: every file system call of an operation fails with every errno, and an exception strikes at every line executed; "
             "afterwards the same handle is compared with the reference in full")
LEVEL_NOTE = ("Each call and each line (quick: the first two executions of each line) is struck once, or all calls from one on. What membership tests, abbreviations and enumerations answer while the file system fails is not judged, as gitdb takes "
              "unreadable directories and files for absent ones; contents and headers always have to be right.")
RULE = ("Per (kind of database, state: cold, warm, or changed on disk since; operation; fault): the operation raises, or answers right. After a refresh without force, the same handle answers for exactly what is there; so do streams opened before, "
        "once rewound; descriptors are as before, and nothing has changed on disk. Stores and packs created: complete or not there, and possible again. Non-trivial: distinct (scenario, operation, fault).")
BOUNDS = {"quick": "21 operations x 5 kinds x 3 states, and 2 further environments; 6 errnos, once and from then on; KeyboardInterrupt and MemoryError at the first 2 executions of each line",
          "thorough": "12 errnos; the first 20 executions of each line, and the first 2 of each instruction"}
ASSUMPTIONS = ["exceptions strike between Python lines (thorough: instructions) of gitdb"]
NEEDS_FSX = True
CASE_TIMEOUT = 60

ERRNOS = ("EIO", "EMFILE", "ENOMEM", "EACCES", "ESTALE", "EINTR")
MORE = ERRNOS + ("ENFILE", "EPERM", "ELOOP", "ENODEV", "EAGAIN", "EOVERFLOW")
ABSENT = b"\x88" * 20
NEW = (b"blob", content("mix", 9000))
NEWSHA = g.obj_sha(*NEW)


class Setup:
    """Directories of a scenario, put into the same state for each execution"""

    def __init__(self, ctx, kind, state):
        self.kind, self.state, self.ctx = kind, state, ctx
        self.base = ctx.fresh_dir("w")
        self.d = Dir(self.base + "/objects").create()
        self.alt = Dir(self.base + "/alt/objects").create()
        self.alt.add_loose(3)
        self.alt.add_pack("a", (2,), "full")
        self.alt2 = Dir(self.base + "/alt2/objects").create()
        self.alt2.add_loose(4)
        self.reset()

    def reset(self):
        d = self.d
        for t in list(d.packs):
            d.del_pack(t)
        for i in range(5):
            if NAMES[i] in d.loose:
                d.del_loose(i)
        d.add_pack("p0", (0, 1, 2), "ofs")
        d.add_pack("p1", (1, 3), "ref", 1)
        d.add_loose(4)
        d.add_loose(2)
        d.set_alternates([(self.alt.path, self.alt)])
        if "b" in self.alt.packs:
            self.alt.del_pack("b")
        # whatever was stored, or left behind by an interrupted operation
        p = self.path(NEWSHA)
        if os.path.exists(p):
            os.unlink(p)
        ours = [stem for stem, _ in d.packs.values()]
        for f in os.listdir(d.path + "/pack"):
            if os.path.splitext(f)[0] not in ours:
                os.unlink(os.path.join(d.path, "pack", f))
        for f in os.listdir(d.path):
            if os.path.isfile(os.path.join(d.path, f)):
                os.unlink(os.path.join(d.path, f))

    def path(self, sha):
        return "%s/%s/%s" % (self.d.path, sha.hex()[:2], sha.hex()[2:])

    def change(self):
        d = self.d
        d.del_pack("p1")
        d.add_pack("p2", (3, 4), "full")
        d.del_loose(4)
        d.add_loose(0)
        d.set_alternates([(self.alt2.path, self.alt2), (self.alt.path, self.alt)])
        self.alt.add_pack("b", (1,), "full")

    def open(self):
        from gitdb.db import GitDB, LooseObjectDB, PackedDB
        from gitdb.db import ReferenceDB
        from gitdb.db.base import CompoundDB
        if self.state == "changed":
            self.reset()
        d, alt, alt2 = self.d.path, self.alt.path, self.alt2.path

        class Several(CompoundDB):
            def _set_cache_(self, attr):
                if attr == "_dbs":
                    self._dbs = [PackedDB(alt + "/pack"), LooseObjectDB(alt2), PackedDB(d + "/pack"), LooseObjectDB(d)]
                else:
                    super()._set_cache_(attr)
        db = {"several": Several, "reference": lambda: ReferenceDB(d + "/info/alternates"),
              "git": lambda: GitDB(self.d.path), "packed": lambda: PackedDB(self.d.path + "/pack"), "loose": lambda: LooseObjectDB(self.d.path)}[self.kind]()
        if self.state not in ("cold", "nommap", "foreign"):
            for n in self.model():
                db.has_object(n)
                db.stream(n).read(2)
            db.has_object(ABSENT)
        if self.state == "changed":
            self.change()
        return db

    def copies(self):
        if self.kind == "loose":
            return sorted(self.d.loose)
        if self.kind == "packed":
            return [n for _, names in self.d.packs.values() for n in names]
        if self.kind == "reference":
            return [n for _, d in self.d.alternates for n in d.visible()]
        if self.kind == "several":
            return [n for d in (self.d, self.alt) for _, names in d.packs.values() for n in names] + sorted(self.d.loose) + sorted(self.alt2.loose)
        return self.d.visible()

    def model(self):
        return {n: world.known(n) for n in self.copies()}


# operations: (db, setup, mark) -> answer, or None; judged by the second function
def right(s, sha, i):
    o = s.model().get(sha)
    if o is None:
        # known before it was removed
        o = world.known(sha)
    return (bytes(i.type), i.size) == (o[0], len(o[1]))


def op_has(i):
    def run(db, s):
        return db.has_object(NAMES[i])
    return run


def op_info(*which):
    def run(db, s):
        for i in which:
            x = db.info(NAMES[i])
            expect(right(s, NAMES[i], x), "info: %s", tuple(x))
    return run


def op_read(i, n):
    def run(db, s):
        x = db.stream(NAMES[i])
        expect(right(s, NAMES[i], x), "stream: %s %s", x.type, x.size)
        if n is None:
            got = bytes(x.read())
        else:
            got = b"".join(iter(lambda: bytes(x.read(n)), b""))
        expect_eq(got, world.known(NAMES[i])[1], "content")
    return run


def op_absent(db, s):
    from gitdb.exc import BadObject
    try:
        db.info(ABSENT)
    except BadObject:
        return
    raise Violation("info about an absent object")


def op_prefix(db, s):
    h = NAMES[1].hex()[:20]
    got = db.partial_to_complete_sha_hex(h) if hasattr(db, "partial_to_complete_sha_hex") else db.partial_to_complete_sha(NAMES[1][:10], 20)
    expect_eq(bytes(got), NAMES[1], "abbreviation")


def op_iter(db, s):
    for n in db.sha_iter():
        expect(bytes(n) in world.MODEL or bytes(n) in world.HIDDEN, "enumerated: %r", bytes(n))


def op_size(db, s):
    db.size()


def op_update(force):
    def run(db, s):
        db.update_cache(force)
    return run


def all_entities(db):
    from gitdb.db import PackedDB
    for x in [db] if isinstance(db, PackedDB) else getattr(db, "databases", tuple)():
        if isinstance(x, PackedDB):
            for e in x.entities():
                yield e


def op_verify(db, s):
    for e in all_entities(db):
        for i in range(e.index().size()):
            n = e.index().sha(i)
            if e.index().version() == 2:
                expect(e.is_valid_stream(n, use_crc=True) is True, "crc verification of an intact object fails")
            expect(e.is_valid_stream(n) is True, "verification of an intact object fails")


def op_walk(db, s):
    for e in all_entities(db):
        k = 0
        for o in e.pack().stream_iter():
            o.read(3)
            k += 1
        expect_eq(k, e.index().size(), "entries of the pack")
        for o in e.stream_iter():
            expect(right(s, bytes(o.binsha), o), "stream_iter")
        for o in e.info_iter():
            expect(right(s, bytes(o.binsha), o), "info_iter")


def op_store(db, s):
    from gitdb import IStream
    i = db.store(IStream(NEW[0], len(NEW[1]), BytesIO(NEW[1])))
    expect_eq(bytes(i.binsha), NEWSHA, "name")


def op_store_encoded(db, s):
    from gitdb import IStream
    db.store(IStream(NEW[0], len(NEW[1]), BytesIO(g.Z(1)(g.canonical(*NEW))), NEWSHA))


def op_store_known(db, s):
    from gitdb import IStream
    o = world.known(NAMES[2])
    db.store(IStream(o[0], len(o[1]), BytesIO(o[1])))


def op_create(db, s):
    """The name of the pack is not known before"""
    from gitdb.pack import PackEntity
    PackEntity.create([db.stream(NAMES[2]), db.stream(NAMES[0])], s.d.path + "/pack")


OPS = {"has0": op_has(0), "has4": op_has(4), "info0": op_info(0), "info123": op_info(1, 2, 3), "info4": op_info(4), "read2": op_read(2, None), "read2/700": op_read(2, 700), "read3": op_read(3, None), "read4": op_read(4, 3),
       "absent": op_absent, "prefix": op_prefix, "iter": op_iter, "size": op_size, "update": op_update(False), "force": op_update(True), "verify": op_verify, "walk": op_walk,
       "store": op_store, "encoded": op_store_encoded, "known": op_store_known, "create": op_create}
NOT = {"packed": ("store", "encoded", "known", "create"), "loose": ("verify", "walk", "create"), "git": (), "several": ("store", "encoded", "known", "create", "prefix"), "reference": ("store", "encoded", "known", "create", "prefix", "verify", "walk", "info123", "read4", "info0", "info4", "has4")}
MUTATING = ("store", "encoded", "known", "create")


def perform(op, db, s):
    """:return: name of the exception it raised, without keeping it: it owns the frames"""
    try:
        op(db, s)
    except (HarnessError, Violation):
        raise
    except Exception as e:
        return type(e).__name__
    except KeyboardInterrupt:
        return "KeyboardInterrupt"
    return None


class Struck:
    """Raises at the k-th line executed within the code under test"""

    def __init__(self, watched, opcodes=False):
        self.watched, self.opcodes = watched, opcodes
        self.log = []
        self.k, self.exc, self.fired = -1, None, None

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.watched):
            return None
        frame.f_trace_opcodes = self.opcodes
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            n = len(self.log)
            self.log.append((frame.f_code.co_filename, frame.f_lasti if self.opcodes else frame.f_lineno, frame.f_code.co_name))
            if n == self.k:
                self.fired = "%s:%d in %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                raise self.exc("struck")
        return self._local

    def run(self, fn, k, exc):
        self.log, self.k, self.exc, self.fired = [], k, exc, None
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(None)


class Run:
    def __init__(self, ctx, kind, state, opname):
        import gitdb
        self.ctx, self.kind, self.state, self.opname = ctx, kind, state, opname
        self.name = "%s/%s/%s" % (kind, state, opname)
        self.op = OPS[opname]
        self.s = Setup(ctx, kind, state)
        self.watched = os.path.dirname(gitdb.__file__) + "/"
        self.mutating = opname in MUTATING
        self.held = None

    def prepare(self):
        """:return: the handle, in its state, and a stream which is already open"""
        if self.mutating:
            self.s.reset()
            if self.state == "changed":
                self.s.change()
        db = self.s.open()
        held = None
        if self.state in ("warm", "nommap") and self.kind != "several":
            held = db.stream(NAMES[2])
            held.read(10)
        return db, held

    def judge(self, db, held, failed, what):
        s = self.s
        gc.collect()
        model = s.model()
        copies = s.copies()
        what = "%s (%s)" % (what, failed or "it succeeded")
        if self.mutating:
            now = disk(s.d.path, what)
            if self.opname in ("store", "encoded"):
                if failed is None:
                    expect(NEWSHA in now, "%s: the object is not there", what)
                if NEWSHA in now:
                    model[NEWSHA] = NEW
                    copies = copies + [NEWSHA]
            db.update_cache()
            check_db(db, model, [], what + ": same handle", unique=False, prefixes=False)
            again = perform(self.op, db, s)
            expect(again is None, "%s: repeating it raises %s", what, again)
            if self.opname in ("store", "encoded"):
                model[NEWSHA] = NEW
            db.update_cache()
            check_db(db, model, [], what + ": same handle, after repeating it", unique=False, prefixes=False)
            return
        db.update_cache()
        dup = len(copies) != len(set(copies))
        check_db(db, model, [], what + ": same handle", unique=not dup, prefixes=True)
        if dup:
            expect_eq(sorted(bytes(n) for n in db.sha_iter()), sorted(copies), what + ": sha_iter")
            expect_eq(db.size(), len(copies), what + ": size")
        for op in (op_verify, op_walk):
            again = perform(op, db, s)
            expect(again is None, "%s: afterwards %s raises %s", what, op.__name__, again)
        if held is not None:
            held.stream.seek(0)
            expect_eq(bytes(held.read()), world.known(NAMES[2])[1], what + ": stream opened before")

    def calls(self):
        """Failing file system calls"""
        s = self.s

        def armed(mode, *args):
            db, held = self.prepare()
            fsx.new(s.base)
            before = len(own_fds())
            fsx.arm(mode, fsx.ALL, *args)
            try:
                failed = perform(self.op, db, s)
            finally:
                fsx.disarm()
            return db, held, failed, before
        box = []

        def undisturbed():
            armed(fsx.OFF)
            db, held, failed, before = armed(fsx.LOG)
            box.extend(fsx.log())
            box.append(failed)
            self.judge(db, held, failed, "undisturbed")
        only, self.ctx.only = self.ctx.only, None
        self.ctx.run(self.name + "/undisturbed", undisturbed)
        self.ctx.only = only
        if not box:
            return
        expected = box.pop()

        def fault(k, p, *args):
            release_maps()
            db, held, failed, before = armed(fsx.FAULT, k, *args)
            if fsx.lib.fsx_fired() < 0:
                raise HarnessError("call %d did not happen (%s): %s" % (k, p, fsx.log()))
            self.ctx.count("raised" if failed else "succeeded")
            gc.collect()
            expect_eq(len(own_fds()), before, "call %d %s failing, %s: descriptors" % (k, p.kind, failed))
            self.judge(db, held, failed, "call %d, %s, failing" % (k, p.kind))
        self.ctx.count("calls", len(box))
        for k, p in enumerate(box):
            for e in ERRNOS if self.ctx.tier == "quick" else MORE:
                if e == "EINTR" and p.kind.startswith("close"):
                    continue
                for persistent in (0, 1):
                    if persistent and e not in ("EMFILE", "EIO", "EACCES"):
                        continue
                    self.ctx.run("%s/%d:%s:%s%s" % (self.name, k, p.kind, e, "*" * persistent), fault, k, p, getattr(errno, e), -1, persistent)
                    self.ctx.distinct("nontrivial", (self.name, k, e, persistent))
            if p.kind == "read":
                for n in sorted({1, p.size // 2, p.size - 1} - {0, p.size}):
                    self.ctx.run("%s/%d:short%d" % (self.name, k, n), fault, k, p, 0, n, 0)
                    self.ctx.distinct("nontrivial", (self.name, k, "short", n))

    def lines(self, opcodes, visits, part, parts):
        s = self.s
        tracer = Struck(self.watched, opcodes)

        def go(k, exc):
            db, held = self.prepare()
            before = len(own_fds())
            failed = tracer.run(lambda: perform(self.op, db, s), k, exc)
            return db, held, failed, before
        box = []

        def undisturbed():
            go(-1, None)
            release_maps()
            db, held, failed, before = go(-1, None)
            box.extend(tracer.log)
            box.append(failed)
            self.judge(db, held, failed, "undisturbed")
        only, self.ctx.only = self.ctx.only, None
        self.ctx.run(self.name + "/undisturbed-lines", undisturbed)
        self.ctx.only = only
        if not box:
            return
        expected = box.pop()

        def strike(k, exc):
            release_maps()
            db, held, failed, before = go(k, exc)
            if tracer.fired is None:
                # not the same way as before: an order of a set, or the like
                self.ctx.count("not_reached")
                return
            self.ctx.count("swallowed" if failed == expected and failed is None else "raised")
            what = "%s at %s" % (exc.__name__, tracer.fired)
            # a descriptor may be lost, if it happens just after it was opened
            self.judge(db, held, failed, what)
        seen, n = {}, 0
        for k, pos in enumerate(box):
            seen[pos] = seen.get(pos, 0) + 1
            if seen[pos] > visits:
                continue
            for exc in (KeyboardInterrupt, MemoryError):
                n += 1
                if n % parts == part:
                    self.ctx.run("%s/%s%d:%s" % (self.name, "op" if opcodes else "line", k, exc.__name__), strike, k, exc)
                    self.ctx.distinct("nontrivial", (self.name, k, exc.__name__, opcodes))
        self.ctx.count("positions", len(seen) if part == 0 else 0)


def no_mmap():
    """As on file systems which do not support it"""
    import mmap
    real = mmap.mmap

    def fake(fileno, *args, **kwargs):
        if fileno != -1:
            raise OSError(errno.ENODEV, "No such device")
        return real(fileno, *args, **kwargs)
    mmap.mmap = fake


def foreign_files():
    """Files of somebody else cannot be opened without updating their access time"""
    real = os.open

    def opener(path, flags, *args, **kwargs):
        if flags & os.O_NOATIME:
            raise PermissionError(errno.EPERM, "Operation not permitted", path)
        return real(path, flags, *args, **kwargs)
    os.open = opener


def calls(ctx, kind, state, opname):
    import time
    time.sleep = lambda s: None
    sys.unraisablehook = lambda u: None
    if state == "nommap":
        no_mmap()
    if state == "foreign":
        foreign_files()
    r = Run(ctx, kind, state, opname)
    r.calls()
    shutil.rmtree(r.s.base)


def lines(ctx, kind, state, opname, part, parts, visits, opcodes=False):
    import time
    time.sleep = lambda s: None
    sys.unraisablehook = lambda u: None
    r = Run(ctx, kind, state, opname)
    r.lines(opcodes, visits, part, parts)
    shutil.rmtree(r.s.base)


def units(tier, seed):
    out = []
    for opname in ("info4", "read2", "read2/700", "read4", "info123"):
        out.append(("calls-loose-nommap-%s" % opname.replace("/", "_"), calls, dict(kind="loose", state="nommap", opname=opname)))
        out.append(("calls-loose-foreign-%s" % opname.replace("/", "_"), calls, dict(kind="loose", state="foreign", opname=opname)))
    for kind in ("git", "packed", "loose", "several", "reference"):
        for state in ("cold", "warm", "changed"):
            for opname in OPS:
                if opname in NOT[kind]:
                    continue
                args = dict(kind=kind, state=state, opname=opname)
                out.append(("calls-%s-%s-%s" % (kind, state, opname.replace("/", "_")), calls, args))
                parts = 1 if tier == "quick" else 4
                for part in range(parts):
                    out.append(("lines-%s-%s-%s-%d" % (kind, state, opname.replace("/", "_"), part), lines, dict(args, part=part, parts=parts, visits=2 if tier == "quick" else 20)))
                    if tier != "quick":
                        out.append(("ops-%s-%s-%s-%d" % (kind, state, opname.replace("/", "_"), part), lines, dict(args, part=part, parts=parts, visits=2, opcodes=True)))
    return out
