"""C11: a failing system call never loses data silently or leaves debris"""
import errno
import gc
import os
import shutil
import sys
from io import BytesIO

from mc import fsx, gitref as g
from mc.checks import c10
from mc.core import HarnessError, Violation, expect, expect_eq
from mc.dbcheck import check_objects_dir, debris, release_maps, slurp
from mc.fixtures import content
from mc.inputs import Reader, loose_path, own_fds

PROPERTY = "C11"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive single fault enumeration: every file system call of the real code fails with every errno, or transfers only a part; result, visible state and leftovers checked against an independent reader"
LEVEL_NOTE = ("Every file system call below the database directory is failed, once or from then on, with each errno of the list; writes are also shortened, and failing close calls lose data. "
              "Input streams fail, end early or answer short at every position. Several unrelated faults in one operation are not covered.")
RULE = ("Scenarios (operation x kind of database x previous content, as in C10, and locked files being written, read, committed and rolled back) are recorded, then repeated once "
        "per (call, fault). Afterwards: either the operation succeeded and everything is there, or it raised; no partial or wrong content, nothing old lost, no temporary or "
        "lock file (unless its removal is what failed), no descriptor more than before, and the operation can be repeated. Input streams: fail with OSError, RuntimeError, KeyboardInterrupt, "
        "or end, at every position. Every call of the interpreter into the operating system, but those which clean up, is interrupted by KeyboardInterrupt, MemoryError and SystemExit. Non-trivial: distinct (scenario, call, fault).")
BOUNDS = {"quick": "9 errnos, once and persistently, short writes of 0/1/half/n-1 bytes; input streams at ~40 positions",
          "thorough": "15 errnos, short writes of every length up to 200; input streams at every position up to 600"}
ASSUMPTIONS = ["a descriptor is gone after close() failed (Linux)"]
NEEDS_FSX = True
CASE_TIMEOUT = 60

ERRNOS = ("EIO", "ENOSPC", "EACCES", "EPERM", "EMFILE", "EROFS", "ENOENT", "EEXIST", "EINTR")
MORE = ERRNOS + ("EDQUOT", "ENFILE", "ENOMEM", "EBUSY", "EXDEV", "ENOTDIR")


def faults(p, tier):
    """Faults for a recorded call: (description, errno, partial, persistent)"""
    out = []
    for e in ERRNOS if tier == "quick" else MORE:
        n = getattr(errno, e)
        if e == "EINTR" and p.kind in ("close_r", "close_w"):
            continue                    # the interpreter ignores that, as the descriptor is closed
        if e == "EEXIST" and p.kind not in ("create", "mkdir", "rename", "link"):
            continue
        out.append((e, n, -1, 0))
        if e in ("ENOSPC", "EACCES", "EIO", "EMFILE") and p.kind != "unlink":
            out.append((e + "*", n, -1, 1))
        if p.kind == "close_w" and e in ("EIO", "ENOSPC"):
            out.append((e + "/lost", n, -2, 0))
    if p.kind == "write":
        cuts = sorted({1, p.size // 2, p.size - 1} - {0}) if tier == "quick" else list(range(1, min(p.size, 200)))
        for c in cuts:
            if c < p.size:
                out.append(("short%d" % c, 0, c, 0))
                if c * 3000 > p.size:
                    out.append(("short%d*" % c, 0, c, 1))
    if p.kind == "read":
        out.append(("short1", 0, 1, 0))
        out.append(("short1*", 0, 1, 1))
    return out


def attempt(fn, *args):
    """:return: the exception, or None"""
    try:
        fn(*args)
    except (fsx.HarnessError, Violation):
        raise
    except Exception as e:
        # without the frames, they own descriptors
        return type(e).__name__
    except (KeyboardInterrupt, SystemExit) as e:
        return type(e).__name__
    return None


class Interrupter:
    """A signal handler raises while a call is about to be made: the call does not happen"""
    # Not those which clean up: what can't be removed, or closed, remains
    CALLS = {"open", "mkdir", "rename", "replace", "link", "stat", "lstat", "chmod", "fchmod", "write", "read", "listdir", "scandir", "readlink", "getcwd"}

    def __init__(self, k=-1, exc=None):
        self.k, self.exc, self.calls = k, exc, []

    def __enter__(self):
        sys.setprofile(self.profile)

    def __exit__(self, *args):
        sys.setprofile(None)

    def profile(self, frame, event, arg):
        if event == "c_call" and getattr(arg, "__module__", None) == "posix" and arg.__name__ in self.CALLS:
            self.calls.append(arg.__name__)
            if len(self.calls) - 1 == self.k:
                raise self.exc("while calling %s" % arg.__name__)


INTERRUPTIONS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit}


class Runner(c10.Runner):
    def op_armed(self, d, mode, k=-1, err=0, partial=-1, persistent=0):
        self.progress.reset()
        fsx.new(d)
        fsx.arm(mode, fsx.ALL, k, err, partial, persistent)
        try:
            return attempt(self.op, d, self.progress)
        finally:
            fsx.disarm()

    def interrupted(self, k, call, exc):
        d = self.fresh()
        what = "call %d (%s) interrupted by %s" % (k, call, exc.__name__)
        before = len(own_fds())
        self.progress.reset()
        i = Interrupter(k, exc)
        with i:
            failed = attempt(self.op, d, self.progress)
        if len(i.calls) <= k or i.calls[k] != call:
            raise HarnessError("call %d (%s) did not happen" % (k, call))
        del i
        gc.collect()
        expect_eq(len(own_fds()), before, "%s (%s): number of open descriptors" % (what, failed or "it succeeded"))
        self.check(d, failed, False, what)
        again = self.op_armed(d, fsx.OFF)
        expect(again is None, "%s: repeating the operation raises %s", what, again)
        self.check(d, None, False, what + ", repeated")
        shutil.rmtree(os.path.dirname(d))
        release_maps()

    def check(self, d, failed, leftover_ok, what):
        gc.collect()
        release_maps()
        now = check_objects_dir(d, self.absent, what)
        for sha, o in list(self.old.items()) + list(self.completed().items()):
            expect(now.get(sha) == o, "%s: object %s is not there", what, sha.hex()[:8])
        for sha in now:
            expect(sha in self.old or sha in self.new, "%s: object %s appeared", what, sha.hex()[:8])
        if not failed:
            for sha, o in self.new.items():
                expect(now.get(sha) == o, "%s: it succeeded, but %s is missing", what, sha.hex()[:8])
                p = os.path.join(d, loose_path(sha))
                if os.path.exists(p) and not what.endswith("repeated"):
                    # what could not be protected the first time is there, and not stored again
                    expect_eq(oct(os.stat(p).st_mode & 0o777), "0o444", "%s: it succeeded, mode of %s" % (what, sha.hex()[:8]))
        left = debris(d)
        if not leftover_ok:
            expect_eq(left, [], "%s (%s): left behind" % (what, failed or "it succeeded"))
        return now

    def fault(self, k, kind, name, err, partial, persistent):
        d = self.fresh()
        what = "call %d (%s) failing with %s" % (k, kind, name)
        before = len(own_fds())
        failed = self.op_armed(d, fsx.FAULT, k, err, partial, persistent)
        if fsx.lib.fsx_fired() < 0:
            raise HarnessError("call %d did not happen (%s): %s" % (k, kind, fsx.log()))
        gc.collect()
        expect_eq(len(own_fds()), before, "%s (%s): number of open descriptors" % (what, failed or "it succeeded"))
        self.check(d, failed, kind == "unlink", what)
        self.ctx.count("raised" if failed else "succeeded")
        again = self.op_armed(d, fsx.OFF)
        expect(again is None, "%s: repeating the operation raises %s", what, again)
        self.check(d, None, kind == "unlink", what + ", repeated")
        shutil.rmtree(os.path.dirname(d))
        release_maps()


def scenario(ctx, name, oname, args, init, objs, part, parts):
    import time
    time.sleep = lambda s: None
    run = Runner(ctx, oname, args, init, objs)
    box = []

    def undisturbed():
        run.op_armed(run.fresh(), fsx.OFF)              # whatever is initialized only once
        d = run.fresh()
        r = run.op_armed(d, fsx.LOG)
        expect(r is None, "it raises %s without any fault", r)
        box.append(fsx.log())
        run.check(d, None, False, "undisturbed")
    only, ctx.only = ctx.only, None
    ctx.run("%s/undisturbed" % name, undisturbed)
    ctx.only = only
    points = box[0]
    if part == 0:
        ctx.count("calls", len(points))
    ctx.sample({"scenario": name, "calls": [str(p) for p in points][:40]}, 1)
    n = 0
    for k, p in enumerate(points):
        for f in faults(p, ctx.tier):
            n += 1
            if n % parts == part:
                ctx.run("%s/%d:%s:%s" % (name, k, p.kind, f[0]), run.fault, k, p.kind, *f)
                ctx.distinct("nontrivial", (name, k, f[0]))


def interruptions(ctx, name, oname, args, init, objs):
    only, ctx.only = ctx.only, None
    run = Runner(ctx, oname, args, init, objs)
    box = []

    def undisturbed():
        run.op_armed(run.fresh(), fsx.OFF)              # whatever is initialized only once
        i, d = Interrupter(), run.fresh()
        with i:
            r = attempt(run.op, d, run.progress)
        expect(r is None, "it raises %s without any interruption", r)
        box.append(i.calls)
    ctx.run("%s/not interrupted" % name, undisturbed)
    ctx.only = only
    for calls in box:
        ctx.count("calls", len(calls))
        ctx.sample({"scenario": name, "interrupted calls": calls[:40]}, 1)
        for k, call in enumerate(calls):
            for en, exc in INTERRUPTIONS.items():
                ctx.run("%s/%d:%s:%s" % (name, k, call, en), run.interrupted, k, call, exc)
                ctx.distinct("nontrivial", (name, k, en))


# ---------------------------------------------------------------- input streams
class Failing(Reader):
    """Fails at a position with any exception"""

    def __init__(self, data, pos, exc, pattern=None):
        super().__init__(data, pattern, fail_at=pos)
        self.exc = exc

    def read(self, size=-1):
        try:
            return super().read(size)
        except OSError as e:
            if "input stream failed" in str(e):
                raise self.exc("input stream failed")
            raise


EXC = {"os": OSError, "runtime": RuntimeError, "interrupt": KeyboardInterrupt, "eof": EOFError, "memory": MemoryError}


def inputs(ctx, target, obj, init, positions, chunk):
    """The input stream fails, or ends, at each position"""
    typ, data = obj
    ctx.only, only = None, ctx.only
    run = Runner(ctx, "store", {}, init, [obj])
    ctx.only = only
    encoded = g.Z(1)(g.canonical(typ, data))
    sha = g.obj_sha(typ, data)
    other = (b"blob", b"another one")

    def perform(d, make):
        from gitdb import IStream, OStream
        from gitdb.pack import PackEntity
        if target.startswith("pack"):
            os.makedirs(d + "/pack", exist_ok=True)
            objs = [OStream(g.obj_sha(*other), other[0], len(other[1]), BytesIO(other[1])), OStream(sha, typ, len(data), make(data))]
            if target == "pack1":
                objs.reverse()
            if target == "packiter":
                def it():
                    yield objs[0]
                    s = make(data)
                    s.read(len(data))
                    s.read(1)
                    raise EOFError()
                PackEntity.create(it(), d + "/pack", 2)
            else:
                PackEntity.create(objs, d + "/pack")
        else:
            db = c10.open_db("git" if target.startswith("git") else "loose", d, chunk)
            if target.endswith("raw"):
                db.store(IStream(typ, len(data), make(encoded), sha))
            else:
                db.store(IStream(typ, len(data), make(data)))

    def check(make):
        d = run.fresh()
        before = len(own_fds())
        failed = attempt(perform, d, make)
        gc.collect()
        expect(failed is not None, "it succeeds although the input stream did not deliver")
        expect_eq(len(own_fds()), before, "number of open descriptors")
        now = check_objects_dir(d, [sha, g.obj_sha(*other)], "afterwards")
        expect_eq(sorted(now), sorted(run.old), "objects afterwards")
        expect_eq(debris(d), [], "left behind")
        shutil.rmtree(os.path.dirname(d))
        release_maps()
    source = encoded if target.endswith("raw") else data
    for pos in sorted({p for p in positions if p < len(source)} | {len(source) - 1}):
        if pos < 0:
            continue
        for en, exc in EXC.items():
            for pattern in (None, [3, 1]) if len(source) < 1000 else (None, [100]):
                ctx.run("input/%s/%s/%d/%s/%s" % (target, init, pos, en, pattern), check, lambda b: Failing(b, pos, exc, pattern))
                ctx.distinct("nontrivial", (target, init, len(data), pos, en, pattern))
        if not target.endswith("raw"):
            for pattern in (None, [2]) if len(source) < 1000 else (None, [100]):
                ctx.run("input/%s/%s/%d/ends/%s" % (target, init, pos, pattern), check, lambda b: Reader(b, pattern, end_at=pos))
                ctx.distinct("nontrivial", (target, init, len(data), pos, "ends", pattern))


# ---------------------------------------------------------------- locked files
def locked(ctx, name, exists, steps):
    """steps: what is done with the handle"""
    sys.unraisablehook = lambda u: None             # failures within __del__ are expected
    old = b"previous content" * 3 if exists else None
    parts = [b"new", b"", b" content" * 40, b"!"]
    new = b"".join(parts)
    st = {}

    def perform(path):
        from gitdb.util import LockedFD
        l = LockedFD(path)
        try:
            if "w" in steps:
                s = l.open(write=True, stream=True)
                for b in parts:
                    s.write(b)
            else:
                s = l.open(stream=True)
                got = s.read(10000)
                while len(got) < len(old):
                    more = s.read(10000)
                    if not more:
                        break
                    got += more
                if got != old:
                    raise Violation("reading the locked file: %r" % got)
            st["wrote"] = "w" in steps
            if "c" in steps:
                l.commit()
            elif "r" in steps:
                l.rollback()
            # else it is dropped
        except BaseException:
            if "R" in steps:
                try:
                    l.rollback()
                except (OSError, AssertionError):
                    pass
            raise

    def armed(path, mode, *args):
        fsx.new(os.path.dirname(path))
        fsx.arm(mode, fsx.ALL, *args)
        try:
            return attempt(perform, path)
        finally:
            fsx.disarm()

    def check(path, failed, unlink, what):
        from gitdb.util import LockedFD
        content_ok = [old]
        if "w" in steps and "c" in steps:
            content_ok = [new] if failed is None else [old, new]
        now = slurp(path) if os.path.exists(path) else None
        expect(now in content_ok, "%s (%s): the file holds %r", what, failed or "it succeeded", now)
        names = sorted(os.listdir(os.path.dirname(path)))
        if not unlink:
            expect(names in ([], ["file"]), "%s (%s): left behind: %s", what, failed or "it succeeded", names)
            l = LockedFD(path)
            l.open(write=True)
            l.rollback()

    def setup():
        path = ctx.fresh_dir("l") + "/file"
        if exists:
            with open(path, "wb") as f:
                f.write(old)
        return path

    def fault(k, kind, fname, *args):
        path = setup()
        before = len(own_fds())
        what = "call %d (%s) failing with %s" % (k, kind, fname)
        failed = armed(path, fsx.FAULT, k, *args)
        if fsx.lib.fsx_fired() < 0:
            raise HarnessError("call %d did not happen (%s): %s" % (k, kind, fsx.log()))
        gc.collect()
        expect_eq(len(own_fds()), before, "%s (%s): number of open descriptors" % (what, failed or "it succeeded"))
        check(path, failed, kind == "unlink", what)
        ctx.count("raised" if failed else "succeeded")

    def interrupted(k, call, exc):
        path = setup()
        before = len(own_fds())
        what = "call %d (%s) interrupted by %s" % (k, call, exc.__name__)
        i = Interrupter(k, exc)
        with i:
            failed = attempt(perform, path)
        if len(i.calls) <= k or i.calls[k] != call:
            raise HarnessError("call %d (%s) did not happen" % (k, call))
        del i
        gc.collect()
        expect_eq(len(own_fds()), before, "%s (%s): number of open descriptors" % (what, failed or "it succeeded"))
        check(path, failed, False, what)
    box = []

    def undisturbed():
        path = setup()
        r = armed(path, fsx.LOG)
        expect(r is None, "it raises %s without any fault", r)
        box.append(fsx.log())
        check(path, None, False, "undisturbed")
    only, ctx.only = ctx.only, None
    ctx.run("%s/undisturbed" % name, undisturbed)
    ctx.only = only
    points = box[0]
    ctx.count("calls", len(points))
    ctx.sample({"scenario": name, "calls": [str(p) for p in points]}, 1)
    for k, p in enumerate(points):
        for f in faults(p, ctx.tier):
            ctx.run("%s/%d:%s:%s" % (name, k, p.kind, f[0]), fault, k, p.kind, *f)
            ctx.distinct("nontrivial", (name, k, f[0]))
    i, path = Interrupter(), setup()
    with i:
        attempt(perform, path)
    for k, call in enumerate(i.calls):
        for en, exc in INTERRUPTIONS.items():
            ctx.run("%s/int%d:%s:%s" % (name, k, call, en), interrupted, k, call, exc)
            ctx.distinct("nontrivial", (name, "int", k, en))


def units(tier, seed):
    quick = tier == "quick"
    out = []
    for n, (name, oname, args, init, objs) in enumerate(c10.scenarios(tier)):
        if oname == "copy" and args.get("db") == "loose" and quick:
            continue
        big = sum(len(d) for _, d in objs) > 100000 and args.get("chunk")
        parts = 6 if big or not quick else 1
        for part in range(parts):
            out.append(("%s#%d" % (name, part), scenario,
                        dict(name=name, oname=oname, args=args, init=init, objs=objs, part=part, parts=parts)))
        out.append((name + "#int", interruptions, dict(name=name + "#int", oname=oname, args=args, init=init, objs=objs)))
    few = [0, 1, 2, 5, 9, 10, 11, 50, 99, 100, 101, 128, 255, 256, 300]
    for target in ("loose", "looseraw", "git", "gitraw", "pack", "pack1", "packiter"):
        for init in ("none", "both"):
            obj = (b"blob", content("rand", 320))
            if target == "packiter" and init == "none":
                continue
            out.append(("input-%s-%s" % (target, init), inputs,
                        dict(target=target, obj=obj, init=init, positions=few if quick else range(600), chunk=None)))
            out.append(("input-%s-%s-chunks" % (target, init), inputs,
                        dict(target=target, obj=(b"tree", content("text", 3000)), init=init,
                             positions=[0, 99, 100, 101, 1000, 2999] if quick else range(0, 3000, 7), chunk=100)))
    for exists in (True, False):
        for steps in ("wc", "wcR", "wr", "wrR", "w", "wR") + (("c", "cR", "r", "", "R") if exists else ()):
            name = "lock-%s-%s" % ("old" if exists else "none", steps or "-")
            out.append((name, locked, dict(name=name, exists=exists, steps=steps)))
    return out
