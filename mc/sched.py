"""Stateless exploration of all interleavings of file system calls: dynamic partial order reduction with sleep sets
(Flanagan, Godefroid 2005) over the calls the real code makes, controlled through fsx.

An execution is a sequence of steps (participant, call). Calls are dependent if they touch the same path, or a directory and an
entry of it, and at least one of them changes something. For every Mazurkiewicz trace (executions equal up to swapping
independent neighbours), at least one execution is run.
"""
import hashlib
import mmap
import os
import pickle
import re
import signal
import struct
import sys
import threading

from mc import fsx
from mc.core import HarnessError, StopUnit, Violation

READS = {"open_r", "read", "close_r", "close_w", "stat", "opendir", "mmap", "start", "sync"}
NAMESPACE = {"create", "rename", "unlink", "mkdir", "rmdir", "link"}
SILENT = {"start", "close_r", "close_w", "sync"}
# names which mean something, and which are the same in every execution
KNOWN = re.compile(r"[0-9a-f]{2}|[0-9a-f]{38}|pack-[0-9a-f]{40}\.(pack|idx)|pack|info|alternates")


class Op(tuple):
    """(kind, paths): one call"""
    __slots__ = ()

    @property
    def kind(self):
        return self[0]

    def __str__(self):
        return "%s(%s)" % (self[0], ",".join(self[1]))


class Names:
    """Names of temporary files are random, and it is up to the code how they are made. All names which were not there at the
    beginning, and mean nothing, are replaced by numbers in the order in which the participants use them first"""

    def __init__(self, root):
        self.names = {"": ""}
        self.counts = {}
        for _, dirs, files in os.walk(root):
            for n in dirs + files:
                self.names[n] = n

    def component(self, part, name):
        if name not in self.names:
            if KNOWN.fullmatch(name) or name.endswith(".lock") and name[:-5] in self.names:
                self.names[name] = name
            else:
                k = self.counts[part] = self.counts.get(part, 0) + 1
                self.names[name] = "new#%d.%d" % (part, k)
        return self.names[name]

    def op(self, i):
        """:return: call the participant is about to make"""
        kind = fsx.KINDS[fsx.lib.fsx_part_kind(i)]
        path = fsx.lib.fsx_part_path(i).decode("utf8", "replace")
        return Op((kind, tuple("/".join(self.component(i, c) for c in p.split("/")) for p in path.split("|"))))


def dependent(a, b):
    if a[0] in SILENT or b[0] in SILENT:
        return False
    if a[0] in READS and b[0] in READS:
        return False
    for p in a[1]:
        for q in b[1]:
            if p == q:
                return True
            if len(p) < len(q):
                d, e, eop, dop = p, q, b, a
            else:
                d, e, eop, dop = q, p, a, b
            # a directory and an entry of it
            if (e.startswith(d + "/") if d else True) and "/" not in e[len(d) + 1 if d else 0:]:
                if eop[0] in NAMESPACE or dop[0] in NAMESPACE:
                    return True
    return False


class Node:
    __slots__ = ("pending", "chosen", "backtrack", "done", "sleep", "event")

    def __init__(self, pending, sleep):
        self.pending, self.sleep = pending, sleep
        self.backtrack, self.done = set(), {}
        self.chosen = None
        self.event = None


class Explorer:
    """:param start: called for each execution with now(), which tells how many steps were executed so far.
        :return: directory to observe, list of functions, one per participant, and a context for `finish`
    :param finish: called with (context, results of the functions, trace) after each execution, raises Violation
    :param mode: 'threads' of this process, or 'processes'"""

    def __init__(self, ctx, start, finish, mode="threads", kinds=fsx.ALL):
        self.ctx, self.start, self.finish, self.mode, self.kinds = ctx, start, finish, mode, kinds
        self.stack = []
        self.executions = self.pruned = self.steps_total = 0
        self.clock = mmap.mmap(-1, 8)

    def now(self):
        return struct.unpack("q", self.clock)[0]

    # -- running participants
    def _launch(self, fns):
        fsx.lib.fsx_sched_reset(len(fns))
        workers, self.results = [], [None] * len(fns)
        for i, fn in enumerate(fns):
            def body(i=i, fn=fn):
                fsx.lib.fsx_enter(i)
                try:
                    self.results[i] = fn()
                finally:
                    fsx.lib.fsx_leave()
            if self.mode == "threads":
                t = threading.Thread(target=body, daemon=True)
                t.start()
                workers.append(t)
            else:
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        signal.alarm(60)
                        body()
                        os.write(w, pickle.dumps(self.results[i]))
                    finally:
                        os._exit(0)
                os.close(w)
                workers.append((pid, r))
            if self._wait(i) != fsx.WAITING:
                raise HarnessError("participant %d did not start" % i)
        return workers

    def _wait(self, i, ms=10000):
        r = fsx.lib.fsx_wait(i, ms)
        if r == fsx.RUNNING:
            self.stuck = True
            raise Violation("participant %d neither ends nor calls the file system, after %s" % (i, self.names.op(i)))
        return r

    def _join(self, workers):
        for i, w in enumerate(workers):
            if self.mode == "threads":
                w.join(10)
                if w.is_alive():
                    raise HarnessError("participant does not end")
            else:
                with open(w[1], "rb") as f:
                    b = f.read()
                os.waitpid(w[0], 0)
                if not b:
                    raise HarnessError("participant %d died" % i)
                self.results[i] = pickle.loads(b)

    # -- one execution
    def execute(self, choices=None):
        """Run one execution along the stack, extending it. :return: list of (participant, op)"""
        root, fns, context = self.start(self.now)
        fsx.new(root)
        self.names = Names(root)
        n = len(fns)
        fsx.arm(fsx.SCHED, self.kinds)
        workers = self._launch(fns)
        trace, clocks = [], []          # clocks: vector clock of each event
        self.last_trace = trace
        tclock = [[-1] * n for _ in range(n)]
        depth, last, pruned = 0, None, False
        prefix = len(self.stack)
        alive = set(range(n))
        state = 0
        while alive:
            pending = {i: self.names.op(i) for i in sorted(alive)}
            if depth < len(self.stack):
                node = self.stack[depth]
                if node.pending != pending:
                    raise HarnessError("execution is not reproducible: %s, before %s" % (pending, node.pending))
                t = node.chosen
            elif choices is not None:
                t = choices[depth] if depth < len(choices) else min(alive)
                node = None
            else:
                sleep = {}
                if depth and not pruned:
                    prev = self.stack[depth - 1]
                    op = prev.pending[prev.chosen]
                    for q, o in list(prev.sleep.items()) + list(prev.done.items()):
                        if q != prev.chosen and not dependent(o, op):
                            sleep[q] = o
                node = None
                if not pruned:
                    cand = [p for p in pending if p not in sleep]
                    if not cand:
                        pruned = True
                        self.pruned += 1
                    else:
                        node = Node(pending, sleep)
                        t = last if last in cand else cand[0]
                        node.chosen = t
                        node.backtrack.add(t)
                        self.stack.append(node)
                if pruned:
                    t = last if last in alive else min(alive)
            # races of every pending call with what was executed before
            if node is not None and depth >= prefix - 1:
                for p, op in pending.items():
                    for i in range(len(trace) - 1, -1, -1):
                        q, o = trace[i]
                        if q != p and dependent(o, op) and clocks[i][q] > tclock[p][q]:
                            self.stack[i].backtrack.add(p)
                            break
            op = pending[t]
            # happens before
            vc = list(tclock[t])
            for i in range(len(trace)):
                q, o = trace[i]
                if q != t and dependent(o, op):
                    vc = [max(a, b) for a, b in zip(vc, clocks[i])]
            vc[t] = len(trace)
            trace.append((t, op))
            clocks.append(vc)
            tclock[t] = vc
            if node is not None:
                h = hashlib.blake2b(repr((t, op, [sum(1 for x in trace[:k + 1] if x[0] == w) if k >= 0 else 0 for w, k in enumerate(vc)])).encode(),
                                    digest_size=8).digest()
                state ^= int.from_bytes(h, "big")
                self.ctx.distinct("states", state.to_bytes(8, "big"))
            self.clock[:] = struct.pack("q", len(trace))
            self.steps_total += 1
            fsx.lib.fsx_go(t)
            if self._wait(t) == fsx.DONE:
                alive.discard(t)
            last = t
            depth += 1
        self._join(workers)
        fsx.disarm()
        self.finish(context, self.results, trace)
        return trace

    def explore(self, name):
        """All executions. Each is a case, named by the sequence of participants"""
        ctx = self.ctx
        ctx.pin()
        if ctx.only is not None:
            # one of them, again
            if ctx.only.startswith(name + "/"):
                ctx.run(ctx.only, self.execute, [int(c) for c in ctx.only[len(name) + 1:]])
            return
        while True:
            self.clock[:] = bytes(8)
            known = len(ctx.violations)
            # the schedule is known afterwards only
            self.stuck = False
            try:
                ctx.run(name + "/?", self.execute)
            finally:
                if len(ctx.violations) > known:
                    ctx.violations[-1]["case"] = "%s/%s" % (name, "".join(str(t) for t, _ in self.last_trace))
            if self.stuck:
                raise StopUnit()
            if self.executions == 0:
                ctx.sample({"scenario": name, "schedule": ["%d:%s" % (t, o) for t, o in self.last_trace]}, 2)
            self.executions += 1
            ctx.count("schedules")
            while self.stack:
                node = self.stack[-1]
                node.done[node.chosen] = node.pending[node.chosen]
                cand = [p for p in sorted(node.backtrack) if p not in node.done and p not in node.sleep]
                if cand:
                    node.chosen = cand[0]
                    break
                self.stack.pop()
            if not self.stack:
                break
        ctx.count("transitions", self.steps_total)
        ctx.count("pruned", self.pruned)
        ctx.count("traces", self.executions - self.pruned)
