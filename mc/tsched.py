"""Systematic exploration of thread interleavings of Python code (preemption bounded, as CHESS does it).

Threads run one at a time. They may be switched at every line (or instruction) executed in the watched files, and where they
wait for a lock; locks created by the code under test are ours, see `patch`. All schedules with at most `bound` preemptions
are executed, where preemptions happen at the first `visits` executions of each line by each thread.
"""
import _thread
import gc
import sys
import threading
import time

from mc.core import Hang, HarnessError, StopUnit, Violation

_real_lock = _thread.allocate_lock
_active = None      # the scheduler at work


class Deadlock(BaseException):
    """Raised within participants to get rid of them"""


def _me():
    s = _active
    return None if s is None else s.by_ident.get(_thread.get_ident())


class Lock:
    """Replacement of locks; a participant which can't have it lets others run"""
    reentrant = False

    def __init__(self):
        self._lock = _real_lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        ident = _thread.get_ident()
        if self.reentrant and self._owner == ident:
            self._count += 1
            return True
        me = _me()
        if me is None:
            r = self._lock.acquire(blocking, timeout)
        else:
            while True:
                r = self._lock.acquire(False)
                if r or not blocking:
                    break
                if not _active.block(me, self, timeout >= 0):
                    break
        if r:
            self._owner, self._count = ident, 1
        return r

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._lock.release()
        if _active is not None:
            _active.unblock(self)

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._lock = _real_lock()
        self._owner, self._count = None, 0


class RLock(Lock):
    reentrant = True

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = self._count, self._owner
        self._count, self._owner = 0, None
        self._lock.release()
        if _active is not None:
            _active.unblock(self)
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state


def patch():
    """From now on, locks are created by us. To be called before the code under test is imported"""
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = threading._RLock = RLock
    _thread.RLock = RLock


READY, BLOCKED, DONE = range(3)
IDLE = 100      # steps of a call at known positions after which it is left alone


class Execution:
    """One run of the participants under a plan {decision number: participant}"""

    def __init__(self, watched, plan, visits, opcodes=False, first=0):
        self.watched, self.plan, self.visits, self.opcodes = watched, plan, visits, opcodes
        self.n = 0
        self.log = []           # (decision number, preemption?, options, chosen)
        self.by_ident = {}
        self.deadlock = None
        self.first = first

    def run(self, fns):
        global _active
        k = len(fns)
        self.state, self.wait_for, self.timed = [READY] * k, [None] * k, [False] * k
        self.gates = [_real_lock() for _ in fns]
        self.results, self.errors = [None] * k, [None] * k
        self.seen = [dict() for _ in fns]
        self.where = [None] * k
        self.finished = _real_lock()
        self.finished.acquire()
        self.diverged = False
        self.states = set()
        for gate in self.gates:
            gate.acquire()
        ready = _real_lock()
        ready.acquire()
        self.started = 0
        _active = self
        try:
            for i, fn in enumerate(fns):
                _thread.start_new_thread(self._body, (i, fn, ready))
                ready.acquire()
            self.current = None
            self._choose(None, list(range(k)), False)
            # interruptible
            while not self.finished.acquire(timeout=1):
                pass
        finally:
            _active = None
        if self.deadlock:
            raise Violation("threads wait for each other: " + self.deadlock)
        return self.results

    def _body(self, i, fn, ready):
        self.by_ident[_thread.get_ident()] = i
        ready.release()
        self.gates[i].acquire()
        try:
            sys.settrace(self._global)
            try:
                self.results[i] = fn()
            finally:
                sys.settrace(None)
        except Deadlock:
            pass
        except BaseException as e:
            self.errors[i] = e
        self.state[i] = DONE
        left = [j for j in range(len(self.state)) if self.state[j] == READY]
        if left:
            self._choose(None, left, False)
        elif all(s == DONE for s in self.state):
            self.finished.release()
        else:
            self._stuck()

    def _stuck(self):
        """Nobody can go on"""
        timed = [j for j, s in enumerate(self.state) if s == BLOCKED and self.timed[j]]
        if timed:
            j = timed[0]
            self.wait_for[j] = "timeout"
            self.state[j] = READY
            self.current = j
            self.gates[j].release()
            return
        self.deadlock = self.deadlock or str([j for j, s in enumerate(self.state) if s == BLOCKED])
        j = [j for j, s in enumerate(self.state) if s == BLOCKED][0]
        self.state[j] = READY
        self.current = j
        self.gates[j].release()

    def _choose(self, me, options, preempting):
        """Decide who goes on. :return: once it is our turn again, if me is given"""
        n = self.n
        self.n += 1
        self.states.add(tuple(self.where))
        default = me if preempting else options[0]
        chosen = self.plan.get(n, default)
        if chosen not in options:
            self.diverged = True
            chosen = default
        if len(options) > 1:
            self.log.append((n, preempting, options, chosen))
        if chosen == me:
            return
        self.current = chosen
        self.gates[chosen].release()
        if me is not None:
            self.gates[me].acquire()

    def _global(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(self.watched):
            return None
        opcodes = self.opcodes
        if opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        me = self.by_ident[_thread.get_ident()]
        seen, state, visits = self.seen[me], self.state, self.visits
        idle = 0

        def local(frame, event, arg):
            nonlocal idle
            if event == "line" or event == "opcode":
                key = (code, frame.f_lasti if opcodes else frame.f_lineno)
                c = seen.get(key, 0)
                if c < visits and self.deadlock is None:
                    seen[key] = c + 1
                    self.where[me] = key
                    idle = 0
                    self._choose(me, [j for j, s in enumerate(state) if s == READY], True)
                else:
                    idle += 1
                    if idle > IDLE:
                        frame.f_trace_opcodes = False
                        return None
            return local
        return local

    # locks
    def block(self, me, lock, timed):
        """:return: True if it is worth another try"""
        if self.deadlock:
            raise Deadlock()
        self.state[me], self.wait_for[me], self.timed[me] = BLOCKED, lock, timed
        left = [j for j, s in enumerate(self.state) if s == READY]
        if left:
            self._choose(None, left, False)
        else:
            self._stuck()
        self.gates[me].acquire()
        if self.deadlock:
            raise Deadlock()
        if self.wait_for[me] == "timeout":
            self.wait_for[me] = None
            return False
        self.wait_for[me] = None
        return True

    def unblock(self, lock):
        for j, s in enumerate(self.state):
            if s == BLOCKED and self.wait_for[j] is lock:
                self.state[j] = READY


def explore(ctx, name, watched, start, finish, bound, visits=4, opcodes=False, part=0, parts=1):
    """Execute all schedules
    :param start: called for each execution, :return: (list of functions, context)
    :param part: of parts: only schedules whose first deviation (not counting who begins) is at such a decision
    :param finish: called with (context, results, errors), raises Violation"""
    ctx.pin()
    gc.disable()

    def execute(plan, keep):
        ex = Execution(watched, plan, visits, opcodes)
        keep.append(ex)
        fns, context = start()
        ex.run(fns)
        finish(context, ex.results, ex.errors)

    def spell(plan):
        return "%s/%s" % (name, ";".join("%d>%d" % p for p in sorted(plan.items())))
    if ctx.only is not None:
        if ctx.only.startswith(name + "/"):
            plan = {int(a): int(b) for a, b in (p.split(">") for p in ctx.only[len(name) + 1:].split(";") if p)}
            # things are loaded the first time
            try:
                execute({}, [])
            except Exception:
                pass
            ctx.run(ctx.only, execute, plan, [])
        return
    todo = [({}, -1, 0)]
    first, states = True, set()
    executions = points = diverged = 0
    while todo:
        plan, last, cost = todo.pop()
        keep = []
        if first:
            # caches shared by all executions are filled
            ctx.run(spell(plan), execute, plan, [])
        known = len(ctx.violations)
        ctx.run(spell(plan), execute, plan, keep)
        executions += 1
        ex = keep[0]
        if first:
            ctx.sample({"scenario": name, "decisions": len(ex.log)}, 2)
            first = False
        points += ex.n
        diverged += ex.diverged
        states |= ex.states
        for n, preempting, options, chosen in ex.log:
            if n <= last:
                continue
            c = cost + (1 if preempting else 0)
            if c > bound:
                continue
            if set(plan) <= {0} and n and n % parts != part:
                continue        # somebody else does it
            for o in options:
                if o != chosen:
                    p = dict(plan)
                    p[n] = o
                    todo.append((p, n, c))
        if executions % 200 == 0:
            gc.collect()
    gc.enable()
    for st in states:
        ctx.distinct("states", (name, [w and (w[0].co_name, w[1]) for w in st]))
    ctx.count("transitions", points)
    ctx.count("traces", executions)
    ctx.count("schedules", executions)
    if diverged:
        ctx.count("diverged", diverged)
