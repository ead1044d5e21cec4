"""C16: membership tests from several threads never miss an object"""
import itertools
import os
import shutil

from mc import tsched
tsched.patch()      # before the code under test creates its locks

from mc import world    # noqa: E402
from mc.core import Violation, expect    # noqa: E402
from mc.world import Dir, NAMES    # noqa: E402

PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real code: all schedules of 2 and 3 threads up to a preemption bound, switching at every line (instruction) of gitdb executed and at every lock operation"
LEVEL_NOTE = ("All schedules within the preemption bound, where a preemption can happen at the first execution (thorough: first two) of each line or instruction by each thread; the scheduler controls real threads running the "
              "real code, locks included.")
RULE = ("Scenarios: pack or repository database (cold, warm, at the moment of re-prioritisation, or with packs and alternates added, removed or taken off the list on disk since) x programs of the threads (membership tests of objects in "
        "different parts and of absent ones, refreshes). In each schedule each test has to give the right answer, nothing may raise, and afterwards the database answers for everything; if one of the threads refreshed, exactly for what is there now. "
        "states: distinct tuples of code positions of the threads; transitions: scheduling decisions; traces: schedules executed on the real code.")
BOUNDS = {"quick": "2 threads: 1 preemption at lines in all scenarios, 2 at lines in 24 and 1 at instructions in 18 of them; 3 threads: 1 preemption; first execution of each position",
          "thorough": "2 threads: 2 preemptions at lines, 1 at instructions; 3 threads: 2 preemptions; first 2 executions of each position"}
ASSUMPTIONS = ["interleavings are those of Python lines and instructions within gitdb; smmap and C code are executed without being interrupted"]
CASE_TIMEOUT = 30

ABSENT = b"\x88" * 20
PACKS = {"p0": ((0, 1, 2), "ofs", 2), "p1": ((1, 3), "ref", 1), "p2": ((0, 4), "full", 2), "p3": ((0, 1, 2, 3), "full", 2), "p4": ((2, 4), "ofs", 2)}


for _spec in PACKS.values():
    world.image(*_spec)
# in p4 only
HIDDEN = (set(world.image(*PACKS["p4"])[3]) - set(NAMES)) - {n for t in ("p0", "p1", "p2", "p3") for n in world.image(*PACKS[t])[3]}
HIDDEN, = HIDDEN


class Setup:
    """A directory used for all executions of a scenario"""

    def __init__(self, ctx, kind, state):
        self.kind, self.state = kind, state
        self.base = ctx.fresh_dir("w")
        self.d = Dir(self.base + "/objects").create()
        self.d.add_pack("p0", *PACKS["p0"])
        self.d.add_pack("p1", *PACKS["p1"])
        self.alt = None
        if kind == "git":
            self.d.add_loose(4)
            self.alt = Dir(self.base + "/alt/objects").create()
            self.alt.add_pack("p2", *PACKS["p2"])
            self.alt2 = Dir(self.base + "/alt2/objects").create()
            self.alt2.add_loose(0)
            self.alt3 = Dir(self.base + "/alt3/objects").create()
            self.alt3.add_pack("p4", *PACKS["p4"])
            self.d.set_alternates([(self.alt.path, self.alt)])

    def open(self):
        from gitdb.db import GitDB, PackedDB
        d = self.d
        # as it was
        if self.alt and NAMES[4] not in d.loose:
            d.add_loose(4)
        for t in ("p2", "p3", "p4"):
            if t in d.packs:
                d.del_pack(t)
        if self.alt:
            d.set_alternates([(self.alt.path, self.alt)])
            if "p3" in self.alt.packs:
                self.alt.del_pack("p3")
        if self.state == "removed":
            d.add_pack("p3", *PACKS["p3"])
        elif self.state == "gone":
            d.add_pack("p4", *PACKS["p4"])
        elif self.state == "unlisted":
            d.set_alternates([(self.alt2.path, self.alt2), (self.alt3.path, self.alt3), (self.alt.path, self.alt)])
            d.del_loose(4)
        db = GitDB(d.path) if self.kind == "git" else PackedDB(d.path + "/pack")
        self.before = set(d.visible())
        if self.state != "cold":
            for n in NAMES:
                db.has_object(n)
            if self.state == "resort":
                # as in "sort", with changes meanwhile
                for i in range(1000):
                    if getattr(db, "_hit_count", 499) % 500 == 499:
                        break
                    db.has_object(NAMES[3])
        if self.state == "sort":
            # the next query but one is the one which sorts; less requested packs have been hit last
            pdb = [x for x in db.databases() if isinstance(x, PackedDB)][0] if self.kind == "git" else db
            for i in range(498):
                pdb.has_object(NAMES[3] if i % 3 == 0 else NAMES[2])
            for i in range(500):
                if getattr(pdb, "_hit_count", 499) % 500 == 499:
                    break
                pdb.has_object(NAMES[3])
        elif self.state == "gone":
            d.del_pack("p4")
        elif self.state == "unlisted":
            d.set_alternates([(self.alt.path, self.alt)])
        elif self.state in ("added", "resort"):
            d.add_pack("p2", *PACKS["p2"])
            if self.alt:
                d.set_alternates([(self.alt2.path, self.alt2), (self.alt.path, self.alt)])
        elif self.state == "removed":
            d.del_pack("p3")
            if self.alt:
                self.alt.add_pack("p3", *PACKS["p3"])
        self.after = set(d.visible())
        return db


def program(db, s, ops):
    """:return: function of a thread. Its result is the list of wrong answers"""
    always, ever = s.before & s.after, s.before | s.after

    def run():
        for op in ops:
            if op in ("u", "U"):
                r = db.update_cache(op == "U")
                if r not in (True, False):
                    return "update_cache returned %r" % r
            elif op == "e":
                got = set(db.sha_iter())
                if not always <= got <= ever:
                    return "sha_iter does not yield what is there"
            else:
                sha = ABSENT if op == "x" else HIDDEN if op == "h" else NAMES[int(op)]
                r = (sha in db) if len(ops) % 2 else db.has_object(sha)
                if sha in always and r is not True:
                    return "object %s is missed" % op
                if sha not in ever and r is not False:
                    return "absent object %s is reported" % op
        return None
    return run


def scenario(ctx, kind, state, programs, bound, opcodes=False, visits=4, part=0, parts=1):
    import gitdb
    watched = os.path.dirname(gitdb.__file__) + "/"
    s = Setup(ctx, kind, state)
    name = "%s/%s/%s%s" % (kind, state, "|".join(programs), "/op" if opcodes else "")

    def start():
        db = s.open()
        return [program(db, s, p) for p in programs], db

    def finish(db, results, errors):
        for p, r, e in zip(programs, results, errors):
            if e is not None:
                raise Violation("thread %s: %s: %s" % (p, type(e).__name__, str(e)[:200]))
            expect(r is None, "thread %s: %s", p, r)
        # the database is all right afterwards
        r = program(db, s, "01234x")()
        expect(r is None, "afterwards: %s", r)
        if any(op in "uU" for p in programs for op in p):
            # all that was refreshed, by whomsoever
            for n in NAMES + [ABSENT, HIDDEN]:
                expect(db.has_object(n) is (n in s.after), "after the threads ended, which refreshed: has_object(%s..) is wrong", n.hex()[:8])
                if n in s.after:
                    expect(bytes(db.stream(n).read()) == world.known(n)[1], "after the threads ended: content of %s..", n.hex()[:8])
        db.update_cache(True)
        for n in NAMES + [ABSENT]:
            expect(db.has_object(n) is (n in s.after), "after another refresh: has_object(%s..) is wrong", n.hex()[:8])
    tsched.explore(ctx, name, watched, start, finish, bound, visits, opcodes, part, parts)
    ctx.count("scenarios")
    shutil.rmtree(s.base)


STATES = ("cold", "warm", "sort", "added", "removed", "gone", "resort", "unlisted")


def units(tier, seed):
    quick = tier == "quick"
    out = []

    def add(kind, state, programs, bound, opcodes=False):
        parts = (4 if bound > 1 else 1) if quick else 16
        for part in range(parts):
            n = "%s-%s-%s%s-%d" % (kind, state, "+".join(programs), "-op" if opcodes else "", part)
            out.append((n, scenario, dict(kind=kind, state=state, programs=programs, bound=bound, opcodes=opcodes, visits=1 if quick else 2, part=part, parts=parts)))
    more = 0 if quick else 1
    deep = {("git", "cold"): [("3", "4")], ("git", "warm"): [("3", "U")], ("git", "sort"): [("3", "0")], ("git", "added"): [("3", "U"), ("4", "u")],
            ("git", "removed"): [("3", "U"), ("0", "U")], ("packed", "cold"): [("3", "1"), ("3", "U"), ("u", "U")], ("packed", "warm"): [("3", "U")],
            ("packed", "sort"): [("3", "1"), ("3", "3"), ("3", "U")], ("packed", "added"): [("3", "U"), ("1", "u"), ("u", "U")],
            ("packed", "removed"): [("3", "U"), ("1", "u"), ("u", "U")]}
    for kind in ("git", "packed"):
        for state in STATES:
            if (kind, state) in (("git", "resort"), ("packed", "unlisted")):
                continue
            one = ("3", "1", "x", "u", "U") if kind == "packed" else ("3", "0", "4", "x", "u", "U")
            if state in ("gone", "resort", "unlisted"):
                for p in (("h", "u"), ("h", "U"), ("4", "u"), ("3", "u"), ("u", "U"), ("0h", "u4")):
                    add(kind, state, p, 2 if p == ("h", "u") or not quick else 1)
                continue
            for p in itertools.combinations_with_replacement(one, 2):
                if set(p) == {"x"}:
                    continue
                d = p in deep.get((kind, state), ())
                add(kind, state, p, 2 if d or not quick else 1)
                if d or not quick:
                    add(kind, state, p, 1, opcodes=True)
            for p in (("31x", "13"), ("31x", "U3"), ("u3", "u1")):
                add(kind, state, p, 1 + more)
            for p in (("3", "1", "U"), ("3", "u", "U"), ("x", "1", "3")):
                add(kind, state, p, 1 + more)
    return out
