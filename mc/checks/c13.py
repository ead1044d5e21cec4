"""C13: file locks exclude each other and replace the file atomically"""
import itertools
import os
import shutil

from mc import fsx
from mc.core import HarnessError, Violation, expect, expect_eq
from mc.dbcheck import slurp
from mc.inputs import own_fds
from mc.sched import Explorer

PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = "explicit state exploration of operation sequences of several handles on the real code against a model, stateless model checking (partial order reduction) of the interleavings of their system calls, crash point enumeration"
LEVEL_NOTE = "All operation sequences up to the depth, all interleavings of the system calls of 2 and 3 actors as threads and processes, all crash points with all torn writes of the scenarios."
RULE = ("Sequences: every sequence of operations (open for writing/reading as descriptor or stream, write, read, commit, rollback, drop, replace by a new handle) over the handles, and of a third party removing or replacing the file, "
        "with file content, lock, exceptions and data read compared with the model after each. Interleavings: actors that write and commit / roll back / drop, read and end, and watch the file, "
        "in every interleaving of system calls: holding intervals are disjoint, failing attempts overlap a holder, contents seen are complete ones in commit order. Crashes: killed before every call and "
        "inside of every write. states: distinct model states plus trace prefixes; transitions: operations and calls; traces: complete sequences, executions and crashes on the real code.")
BOUNDS = {"quick": "2 handles: depth 6, 3 handles: depth 4 (with and without existing file), with a third party removing and replacing the file: 1 handle depth 5, 2 handles depth 4, the same without standard streams; pairs of 10 actors, triples of 4; all torn writes",
          "thorough": "2 handles: depth 7, 3 handles: depth 6, with a third party: depth 6; pairs of 10 actors, triples of 9 actors; all torn writes"}
ASSUMPTIONS = ["each system call is atomic", "the file system implements O_EXCL and rename as POSIX says"]
NEEDS_FSX = True
CASE_TIMEOUT = 60

OLD = b"previous content"


# ------------------------------------------------------------------ sequences
class Handle:
    """Model of a handle: fresh, w (write), r (read), ended, failed"""

    def __init__(self):
        self.state, self.data, self.real, self.stream, self.fd = "fresh", b"", None, None, None


class World:
    def __init__(self, ctx, n, exists):
        from gitdb.util import LockedFD
        self.cls = LockedFD
        self.path = ctx.fresh_dir("l") + "/f"
        self.content = None
        if exists:
            self.content = OLD
            with open(self.path, "wb") as f:
                f.write(OLD)
        self.h = [Handle() for _ in range(n)]
        for h in self.h:
            h.real = LockedFD(self.path)
        self.serial = 0
        self.fds = len(own_fds())

    def holder(self):
        return [h for h in self.h if h.state in "wr"]

    def key(self):
        return repr((self.content, [(h.state, h.data) for h in self.h]))

    def close(self):
        for h in self.h:
            h.real = h.stream = None
            h.state = "fresh"
        observe(self, "dropping all handles")
        shutil.rmtree(os.path.dirname(self.path))


OPS = ("ow", "os", "or", "w", "W", "rd", "c", "b", "del", "new")


# somebody who does not care for locks removes or replaces the file
ENV = ("rm", "put")


def enabled(w, i, op):
    """Operations which make sense"""
    s = w[i]
    if op in ("ow", "os", "or"):
        return s != "failed"
    if op in ("w", "W"):
        return s == "w"
    if op == "rd":
        return s == "r"
    if op == "del":
        return s != "fresh"
    if op == "new":
        return s in ("ended", "failed")
    return True


def step(world, i, op):
    world.serial += 1
    what = "%s of handle %d" % (op, i)
    if i < 0:
        what = "%s by somebody else" % op
        if op == "rm":
            os.remove(world.path)
            world.content = None
        else:
            world.content = b"put %d;" % world.serial * 5
            other = os.path.dirname(world.path) + "-other"
            with open(other, "wb") as f:
                f.write(world.content)
            os.rename(other, world.path)
        observe(world, what)
        return
    h = world.h[i]
    real = h.real

    def refused(fn, exc, why):
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation("%s (%s) raised %s" % (what, why, type(e).__name__))
        raise Violation("%s (%s) is not refused" % (what, why))
    if op in ("ow", "os", "or"):
        kw = {"ow": dict(write=True), "os": dict(write=True, stream=True), "or": dict(stream=False)}[op]
        if h.state != "fresh":
            refused(lambda: real.open(**kw), AssertionError, "opened before")
        elif world.holder():
            refused(lambda: real.open(**kw), OSError, "locked by somebody else")
            h.state = "failed"
        elif op == "or" and world.content is None:
            refused(lambda: real.open(**kw), OSError, "no such file")
            h.state = "failed"
        else:
            r = real.open(**kw)
            if op == "os":
                h.stream = r
            else:
                h.fd = r
            h.state, h.data = ("r" if op == "or" else "w"), b""
            h.kind, h.opened = op, world.content
    elif op in ("w", "W"):
        data = (b"%d.%d;" % (i, world.serial)) * (1 if op == "w" else 3000)
        if h.kind == "os":
            h.stream.write(data)
        else:
            os.write(h.fd, data)
        h.data += data
    elif op == "rd":
        os.lseek(h.fd, 0, os.SEEK_SET)
        expect_eq(os.read(h.fd, 100000), h.opened, what)
    elif op in ("c", "b"):
        fn = real.commit if op == "c" else real.rollback
        if h.state == "fresh":
            refused(fn, AssertionError, "before opening")
        elif h.state == "failed":
            try:
                fn()
            except (AssertionError, OSError):
                pass
        else:
            fn()
            if h.state == "w" and op == "c":
                world.content = h.data
                expect_eq(os.stat(world.path).st_mode & 0o444, 0o444, "%s: who may read the file" % what)
            h.state, h.data = "ended", b""
    elif op in ("del", "new"):
        h.real = h.stream = real = None
        world.h[i] = h = Handle()
        h.real = world.cls(world.path)
    observe(world, what)


def observe(world, what):
    holder = world.holder()
    names = sorted(os.listdir(os.path.dirname(world.path)))
    now = slurp(world.path) if os.path.exists(world.path) else None
    expect(now == world.content, "after %s: the file holds %r, expected %r", what, now and now[:60], world.content and world.content[:60])
    extra = [n for n in names if n != "f"]
    expect_eq(bool(extra), bool(holder), "after %s: lock exists (%s)" % (what, extra))
    expect_eq(len(own_fds()) - world.fds, len(holder), "after %s: additional descriptors" % what)


def model_step(states, exists, i, op):
    """Handle states only, to know what is enabled. :return: (new states, exists)"""
    if i < 0:
        return tuple(states), op == "put"
    s = list(states)
    held = any(x in "wr" for x in s)
    if op in ("ow", "os", "or") and s[i] == "fresh":
        s[i] = "failed" if held or (op == "or" and not exists) else ("r" if op == "or" else "w")
    elif op in ("c", "b") and s[i] in "wr":
        if s[i] == "w" and op == "c":
            exists = True
        s[i] = "ended"
    elif op in ("del", "new"):
        s[i] = "fresh"
    return tuple(s), exists


def sequences(n, depth, exists, env=False):
    """All sequences of operations of exactly the depth (each prefix is checked on the way), handles being interchangeable"""
    def rec(prefix, states, ex, used):
        if len(prefix) == depth:
            yield prefix
            return
        for op in ENV if env else ():
            if ex or op != "rm":
                yield from rec(prefix + ((-1, op),), states, op == "put", used)
        for i in range(min(n, used + 1)):
            for op in OPS:
                if enabled(states, i, op):
                    st, e2 = model_step(states, ex, i, op)
                    yield from rec(prefix + ((i, op),), st, e2, max(used, i + 1))
    yield from rec((), ("fresh",) * n, exists, 0)


def histories(ctx, n, depth, exists, part, parts, env=False, low=False):
    """:param low: no standard streams are open, so that the first descriptor is 0"""
    if low:
        os.close(0)
    for k, seq in enumerate(sequences(n, depth, exists, env)):
        if k % parts != part or (env and all(i >= 0 for i, op in seq)):
            continue
        cid = "seq%s/%s/%s" % ("0" * low, "old" if exists else "none", ",".join("%d%s" % s if s[0] >= 0 else s[1] for s in seq))

        def run():
            w = World(ctx, n, exists)
            for i, op in seq:
                step(w, i, op)
                ctx.distinct("states", w.key() if "W" not in [o for _, o in seq] else repr(hash(w.key())))
            w.close()
        ctx.run(cid, run)
        ctx.count("transitions", len(seq))
        ctx.count("traces")
        ctx.count("sequences")
        ctx.sample({"sequence": ["%d:%s" % s for s in seq]}, 1)


# ------------------------------------------------------------------ interleavings
def content_of(name):
    return (b"content of %s;" % name.encode()) * 3


def mk_write(end, stream=True, empty=False):
    def act(path, ident, note):
        from gitdb.util import LockedFD
        l = LockedFD(path)
        note("open?", None)
        try:
            s = l.open(write=True, stream=stream)
        except OSError:
            note("refused", None)
            return
        note("open!", None)
        data = b"" if empty else content_of(ident)
        for b in (data[:10], data[10:]):
            if stream:
                s.write(b)
            else:
                os.write(s, b)
        note("end?", None)
        if end == "commit":
            l.commit()
            note("committed", data)
        elif end == "rollback":
            l.rollback()
        else:
            s = None
            del l
        note("end!", None)
        if end == "commit":
            l.commit()
            l.rollback()
    return act


def mk_read(end):
    def act(path, ident, note):
        from gitdb.util import LockedFD
        l = LockedFD(path)
        note("open?", None)
        try:
            s = l.open(stream=True)
        except OSError:
            note("refused", None)
            return
        note("open!", None)
        note("saw", s.read(1000))
        note("end?", None)
        getattr(l, end)()
        note("end!", None)
    return act


def watch(path, ident, note):
    """Somebody who does not care for locks"""
    for _ in range(2):
        try:
            fd = os.open(path, os.O_RDONLY)
        except FileNotFoundError:
            note("watched", None)
            continue
        try:
            a = os.read(fd, 1000)
            b = os.read(fd, 1000)
        finally:
            os.close(fd)
        note("watched", a + b)


ACTORS = {"wc": mk_write("commit"), "wb": mk_write("rollback"), "wd": mk_write("drop"), "fc": mk_write("commit", False),
          "ec": mk_write("commit", empty=True), "rc": mk_read("commit"), "rb": mk_read("rollback"), "x": watch}


def twice(name):
    def act(path, ident, note):
        ACTORS[name](path, ident + "1", note)
        ACTORS[name](path, ident + "2", note)
    return act


ACTORS["wcwc"] = twice("wc")
ACTORS["rcrc"] = twice("rc")


def interleave(ctx, actors, exists, mode):
    name = "par/%s/%s/%s" % ("+".join(actors), "old" if exists else "none", mode)
    order = [0]

    def start(now):
        path = ctx.fresh_dir("p") + "/f"
        if exists:
            with open(path, "wb") as f:
                f.write(OLD)
        order[0] = 0
        fns = []
        for n, a in enumerate(actors):
            def fn(n=n, a=a):
                out = []

                def note(what, data):
                    # threads run one at a time, hence this is the very order of events
                    order[0] += 1
                    out.append((what, data, (now(), order[0]) if mode == "threads" else (now(), 0)))
                try:
                    ACTORS[a](path, "%s%d" % (a, n), note)
                except Exception as e:
                    out.append(("problem", "%s: %s" % (type(e).__name__, e), (now(), 0)))
                return out
            fns.append(fn)
        return os.path.dirname(path), fns, path

    def finish(path, results, trace):
        held, attempts, refused, commits = [], [], [], []
        for n, notes in enumerate(results):
            t0 = t1 = None
            for what, data, t in notes:
                if what == "problem":
                    raise Violation("%s: %s" % (actors[n], data))
                if what == "open?":
                    t0 = t
                elif what == "refused":
                    refused.append((n, t0, t))
                elif what == "open!":
                    t1 = t
                elif what == "end?":
                    held.append((n, t1, t))
                elif what == "committed":
                    commits.append((n, data))
                elif what == "end!":
                    attempts.append((n, t0, t))
        for (n, a, b), (m, c, d) in itertools.combinations(held, 2):
            expect(not (a < d and c < b), "handles of %s and %s hold the lock at the same time", actors[n], actors[m])
        for n, a, b in refused:
            if mode == "threads":
                missing = actors[n].startswith("r") and not exists
                expect(missing or any(m != n and c < b and a < d for m, c, d in attempts) or any(m != n and c < b and a < d for m, c, d in refused),
                       "attempt of %s is refused although nobody holds the lock", actors[n])
        final = slurp(path) if os.path.exists(path) else None
        # commits take effect in the order in which they replace the file
        replaced = [p for p, op in trace if op.kind in ("rename", "link") and op[1][0] == "f"]
        known = sorted(replaced) == sorted(n for n, _ in commits)
        if known:
            left = {n: [d for m, d in commits if m == n] for n in set(replaced)}
            commits = [(n, left[n].pop(0)) for n in replaced]
        versions = [OLD if exists else None] + [c for _, c in commits]
        if known:
            expect(final == versions[-1], "at the end the file holds %r, expected %r", final, versions[-1])
        else:
            expect(final in versions[-1:] if len(commits) < 2 else final in versions[1:], "at the end the file holds %r", final)
        for n, notes in enumerate(results):
            pos = 0
            for what, data, t in notes:
                if what in ("saw", "watched"):
                    expect(data in versions, "%s saw %r", actors[n], data)
                    if known:
                        expect(versions.index(data) >= pos, "%s saw an older version afterwards", actors[n])
                        pos = versions.index(data)
        names = os.listdir(os.path.dirname(path))
        expect([x for x in names if x != "f"] == [], "left behind: %s", names)
        shutil.rmtree(os.path.dirname(path))
    Explorer(ctx, start, finish, mode).explore(name)


# ------------------------------------------------------------------ crashes
def crashes(ctx, actor, exists):
    name = "crash/%s/%s" % (actor, "old" if exists else "none")

    def setup():
        path = ctx.fresh_dir("c") + "/f"
        if exists:
            with open(path, "wb") as f:
                f.write(OLD)
        return path

    def execute(path, *arm):
        fsx.new(os.path.dirname(path))

        def child():
            fsx.arm(*arm)
            ACTORS[actor](path, "me", lambda *a: None)
            fsx.disarm()
        return fsx.in_child(child)

    def versions():
        new = [b""] if actor == "ec" else [content_of("me")] if actor in ("wc", "fc") else [content_of("me1"), content_of("me2")] if actor == "wcwc" else []
        return [OLD if exists else None] + new
    r = execute(setup(), fsx.LOG, fsx.MUTATING)
    if r:
        raise HarnessError("the actor %s fails" % actor)
    points = fsx.log()
    ctx.sample({"scenario": name, "calls": [str(p) for p in points]}, 1)

    def crash(k, cut):
        path = setup()
        from gitdb.util import LockedFD
        r = execute(path, fsx.CRASH, fsx.MUTATING, k, 0, cut)
        if r != 77:
            raise HarnessError("no crash at %d" % k)
        now = slurp(path) if os.path.exists(path) else None
        done = len([p for p in points[:k] if p.kind == "rename"])
        expect(now == versions()[done], "dying before call %d (%s): the file holds %r, expected %r", k, points[k], now, versions()[done])
        # who finds a lock left behind is refused, and does not touch anything
        locked = [n for n in os.listdir(os.path.dirname(path)) if n != "f"]
        for write in (True, False):
            l = LockedFD(path)
            try:
                l.open(write=write)
            except OSError:
                expect(locked or (not write and now is None), "dying before call %d: the lock can not be obtained, although there is no lock file", k)
            else:
                expect(not locked, "dying before call %d: somebody else obtained the lock while %s exists", k, locked)
                l.rollback()
            expect((slurp(path) if os.path.exists(path) else None) == now, "dying before call %d: next user changed the file", k)
        expect_eq([n for n in os.listdir(os.path.dirname(path)) if n != "f"], locked, "files left behind")
        shutil.rmtree(os.path.dirname(path))
    for k, p in enumerate(points):
        for cut in [-1] + (list(range(p.size)) if p.kind == "write" else []):
            ctx.run("%s/%d:%d" % (name, k, cut), crash, k, cut)
            ctx.count("crashes")
            ctx.count("traces")
            ctx.distinct("states", (name, k, cut))
            ctx.count("transitions")


def units(tier, seed):
    quick = tier == "quick"
    out = []
    for exists in (True, False):
        for n, depth in ((2, 6), (3, 4)) if quick else ((2, 7), (3, 6)):
            parts = 32 if quick else 128
            for part in range(parts):
                out.append(("seq-%d-%d-%s-%d" % (n, depth, exists, part), histories, dict(n=n, depth=depth, exists=exists, part=part, parts=parts)))
        for n, depth in ((1, 5), (2, 4)) if quick else ((1, 6), (2, 6)):
            parts = 4 if quick else 32
            for part in range(parts):
                out.append(("env-%d-%d-%s-%d" % (n, depth, exists, part), histories, dict(n=n, depth=depth, exists=exists, part=part, parts=parts, env=True)))
        for n, depth in ((1, 5), (2, 4)) if quick else ((1, 6), (2, 6)):
            parts = 2 if quick else 32
            for part in range(parts):
                out.append(("low-%d-%d-%s-%d" % (n, depth, exists, part), histories, dict(n=n, depth=depth, exists=exists, part=part, parts=parts, low=True)))
        for mode in ("threads", "processes"):
            for pair in itertools.combinations_with_replacement(ACTORS, 2):
                if exists or pair != ("rc", "rc"):
                    if mode == "processes" and quick and ("wcwc" in pair or "rcrc" in pair):
                        continue
                    out.append(("par-%s-%s-%s" % ("+".join(pair), exists, mode), interleave, dict(actors=pair, exists=exists, mode=mode)))
        trip = ("wc", "wb", "rc", "x") if quick else [a for a in ACTORS if a != "wcwc"]
        for t in itertools.combinations_with_replacement(trip, 3):
            if t.count("x") < 2:
                out.append(("par-%s-%s" % ("+".join(t), exists), interleave, dict(actors=t, exists=exists, mode="threads")))
        for actor in ACTORS:
            if actor != "x" and (exists or not actor.startswith("r")):
                out.append(("crash-%s-%s" % (actor, exists), crashes, dict(actor=actor, exists=exists)))
    return out
