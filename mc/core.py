"""Runner of the model checking harness.

A check is a list of *units*; every unit is executed in its own forked child (several at a time),
and runs *cases*: one explored behaviour (operation sequence, input, crash point, schedule, ...) of the real
code, compared with its oracle. Whatever a case does that is not what the oracle expects is a violation:
a failed comparison, an exception nobody asked for, a hang, a crash of the process, or memory exhaustion.
An exception outside of a case is an error of the harness (exit status 2), never a violation.
"""
import faulthandler
import gc
import hashlib
import io
import json
import mmap
import os
import pickle
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MAX_CID = 3500


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Hang(BaseException):
    """Raised by the watchdog inside of a case. No Exception, so that nobody swallows it."""


class HarnessError(BaseException):
    """The harness failed, which says nothing about the property"""


class StopUnit(BaseException):
    """Enough violations in this unit"""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(v, n=60):
    """A short, deterministic description of a value"""
    if isinstance(v, (bytes, bytearray, memoryview)):
        v = bytes(v)
        if len(v) <= n // 2:
            return repr(v)
        return "<%d bytes %s.. sha1 %s>" % (len(v), v[:8].hex(), hashlib.sha1(v).hexdigest()[:10])
    r = repr(v)
    return r if len(r) <= 4 * n else r[:4 * n] + "..."


def expect_eq(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


class Ctx:
    """Handed to a unit: runs cases and counts what was explored"""

    max_violations = 3
    slot = 0            # number of the unit among those running at the same time

    def pin(self):
        """Stay on one processor: threads which only ever run one at a time are much faster then"""
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[self.slot % len(cpus)]})

    def __init__(self, prop, tier, seed, unit, scratch, shared=None, only=None, case_timeout=20):
        self.prop, self.tier, self.seed, self.unit = prop, tier, seed, unit
        self.scratch = scratch
        self.only = only                # execute this case only
        self.counts = {}
        self.distinct_sets = {}
        self.samples = []
        self.violations = []
        self.serial = 0
        self._shared = shared
        self._tick_serial = None
        self._ticks = 0
        self._in_case = False
        self._ndirs = 0
        self.case_timeout = case_timeout
        self.notes = {}

    # counting
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, name, key):
        """Count distinct keys"""
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.distinct_sets.setdefault(name, set()).add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # scratch
    def fresh_dir(self, name="d"):
        """A path never used before, as gitdb caches by path"""
        self._ndirs += 1
        p = os.path.join(self.scratch, "%s%d" % (name, self._ndirs))
        os.makedirs(p)
        return p

    # cases
    def _alarm(self, signum, frame):
        if not self._in_case or self._tick_serial != self.serial:
            self._tick_serial, self._ticks = self.serial, 0
            return
        self._ticks += 1
        if self._ticks >= 4:
            raise Hang()

    def arm(self, case_timeout=None):
        self.case_timeout = case_timeout or self.case_timeout
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.case_timeout / 4.0, self.case_timeout / 4.0)

    def disarm(self):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def run(self, cid, fn, *args, **kwargs):
        """Execute one case. :return: the result of fn, None if it was skipped or violates"""
        if self.only is not None and cid != self.only:
            return None
        self.serial += 1
        self.count("cases")
        if self._shared is not None:
            b = cid.encode()[:MAX_CID]
            self._shared[:len(b) + 1] = b + b"\0"
        self._in_case = True
        err = None
        try:
            try:
                return fn(*args, **kwargs)
            finally:
                self._in_case = False
        except (StopUnit, HarnessError):
            raise
        except Hang:
            err = "does not end (or takes longer than %i s)" % self.case_timeout
        except Violation as e:
            err = str(e)
        except MemoryError:
            err = "memory exhausted"
        except RecursionError as e:
            err = "RecursionError: %s" % e
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/gitdb/" in f.filename] or tb
            f = where[-1]
            msg = str(e) if type(e).__str__ is not None else ""
            err = "unexpected %s: %s at %s:%s in %s" % (type(e).__name__, short(msg), os.path.basename(f.filename), f.lineno, f.name)
        self.violation(cid, err)
        return None

    def violation(self, cid, err):
        self.violations.append({"case": cid, "error": err[:2000], "unit": self.unit})
        if len([v for v in self.violations if not is_known(self.prop, v)]) >= self.max_violations:
            raise StopUnit()
        if err.startswith("does not end"):
            raise StopUnit()            # the others might take as long


# ---------------------------------------------------------------- known findings
_known = None


def known_findings():
    global _known
    if _known is None:
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                _known = json.load(f)["findings"]
        except FileNotFoundError:
            _known = []
    return _known


def is_known(prop, v):
    """A violation is known if exactly this case is listed for the property, with the same kind of failure"""
    for k in known_findings():
        if k.get("property") == prop and k.get("status") == "open" and k.get("case") == v["case"] \
                and re.search(k.get("error_re", ""), v["error"]):
            return k
    return None


# ---------------------------------------------------------------- running units
def _child(prop, tier, seed, unit, fn, kwargs, scratch, shared, only, out, mem, case_timeout):
    faulthandler.enable()
    if mem:
        # a negative limit does not include read-only mappings
        resource.setrlimit(resource.RLIMIT_DATA if mem < 0 else resource.RLIMIT_AS, (abs(mem), abs(mem)))
    sys.setrecursionlimit(1000)
    gc.collect()
    gc.freeze()
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    ctx = Ctx(prop, tier, seed, unit, scratch, shared, only, case_timeout)
    res = {"error": None}
    t = time.time()
    try:
        ctx.arm()
        try:
            fn(ctx, **kwargs)
        except StopUnit:
            pass
        finally:
            ctx.disarm()
    except BaseException:
        res["error"] = traceback.format_exc()
    res.update(counts=ctx.counts, distinct=ctx.distinct_sets, samples=ctx.samples, violations=ctx.violations,
               notes=ctx.notes, wall=time.time() - t)
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 1 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def run_units(mod, units, tier, seed, only=None, jobs=8, deadline=None, verbose=False):
    """Run all units. :return: (merged dict, list of violations, list of errors)"""
    prop = mod.PROPERTY
    mem = getattr(mod, "MEM_LIMIT", 4 << 30)
    case_timeout = getattr(mod, "CASE_TIMEOUT", 20)
    jobs = min(jobs, getattr(mod, "JOBS", jobs))
    base = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=scratch_base())
    merged = {"counts": {}, "distinct": {}, "samples": [], "notes": {}, "units": 0}
    violations, errors = [], []
    pending = list(units)
    running = {}
    n = 0
    grace = None
    try:
        while pending or running:
            stop = len([v for v in violations if not is_known(prop, v)]) >= 5 or errors
            while pending and len(running) < jobs and not stop:
                name, fn, kwargs = pending.pop(0)
                n += 1
                scratch = os.path.join(base, "u%d" % n)
                os.makedirs(scratch)
                out = os.path.join(base, "r%d" % n)
                shared = mmap.mmap(-1, 4096)
                sys.stdout.flush()
                sys.stderr.flush()
                slot = min(set(range(jobs)) - {r[4] for r in running.values()})
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        Ctx.slot = slot
                        _child(prop, tier, seed, name, fn, kwargs, scratch, shared, only, out, mem, case_timeout)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (name, scratch, out, shared, slot)
            if stop and not running:
                break
            if violations and not grace and any(not is_known(prop, v) for v in violations):
                grace = time.time() + 60
            if grace and time.time() > grace:
                break               # what has been found suffices
            if deadline and time.time() > deadline:
                for pid in running:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                errors.append("time limit of the check reached with units %s unfinished"
                              % [r[0] for r in running.values()])
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.005)
                continue
            if pid not in running:
                continue
            name, scratch, out, shared, slot = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            res = None
            if os.path.exists(out):
                with open(out, "rb") as f:
                    res = pickle.load(f)
                os.unlink(out)
            shutil.rmtree(scratch, ignore_errors=True)
            if res is None:
                if errors:
                    continue
                cid = shared[:].split(b"\0")[0].decode()
                what = "process died (status 0x%x) while executing the case" % status
                if cid:
                    violations.append({"case": cid, "error": what, "unit": name})
                else:
                    errors.append("unit %s died outside of a case (status 0x%x)" % (name, status))
                continue
            if res["error"]:
                errors.append("unit %s: %s" % (name, res["error"]))
            merged["units"] += 1
            for k, v in res["counts"].items():
                merged["counts"][k] = merged["counts"].get(k, 0) + v
            for k, v in res["distinct"].items():
                merged["distinct"].setdefault(k, set()).update(v)
            merged["samples"].extend(res["samples"][:2])
            for k, v in res["notes"].items():
                merged["notes"].setdefault(k, v)
            violations.extend(res["violations"])
            if verbose:
                print("  unit %-40s %6.1fs %s" % (name, res["wall"], res["counts"]), flush=True)
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)
    return merged, violations, errors


def write_evidence(mod, tier, seed, merged, violations, wall, n_units):
    c = merged["counts"]
    d = {k: len(v) for k, v in merged["distinct"].items()}
    cov = {}
    level = mod.LEVEL
    samples = merged["samples"]
    if len(samples) > 8:
        step = len(samples) / 8.0
        samples = [samples[int(i * step)] for i in range(8)]
    if level == "model_checking":
        cov["states"] = d.get("states", c.get("states", 0))
        cov["transitions"] = c.get("transitions", 0)
        cov["traces_validated_against_impl"] = c.get("traces", c.get("cases", 0))
    else:
        cov["evaluations"] = c.get("evaluations", c.get("cases", 0))
        cov["distinct_nontrivial"] = d.get("nontrivial", c.get("nontrivial", 0))
    cov["rule"] = mod.RULE
    cov["samples"] = samples
    cov["exhaustive"] = True
    cov["bounds"] = mod.BOUNDS[tier] if isinstance(getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", "")
    shown = {v for k, v in cov.items() if isinstance(v, int)}
    cov["counters"] = {k: v for k, v in sorted(c.items()) if v not in shown}
    cov["distinct"] = {k: v for k, v in sorted(d.items()) if v not in shown}
    cov["units"] = "%d of %d" % (merged["units"], n_units)
    if merged["notes"]:
        cov["notes"] = merged["notes"]
    ev = {"property": mod.PROPERTY, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", mod.PROPERTY + ".json")
    text = json.dumps(ev, indent=1, sort_keys=True, default=str)
    assert len(text) < 64000, "evidence file too large"
    with open(p + ".tmp", "w") as f:
        f.write(text)
    os.rename(p + ".tmp", p)


def setup_import():
    """Import gitdb from the working tree of the repository"""
    sys.path.insert(0, REPO)
    import gitdb
    f = os.path.realpath(gitdb.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("gitdb was imported from %s, not from %s" % (f, REPO))
    import gitdb.db            # noqa
    import gitdb.pack          # noqa


def main_check(mod, tier, seed, only_unit=None, only_case=None, verbose=False, jobs=8):
    t = time.time()
    setup_import()
    prepare = getattr(mod, "prepare", None)
    if prepare:
        prepare(tier, seed)
    units = mod.units(tier, seed)
    if only_unit is not None:
        units = [u for u in units if u[0] == only_unit]
        if not units:
            print("no such unit: %s" % only_unit)
            return 2
    limit = 840 if tier == "quick" else int(os.environ.get("MC_THOROUGH_LIMIT", "14000"))
    merged, violations, errors = run_units(mod, units, tier, seed, only=only_case, jobs=jobs,
                                           deadline=t + limit, verbose=verbose)
    wall = time.time() - t
    fresh, known = [], {}
    for v in violations:
        k = is_known(mod.PROPERTY, v)
        if k:
            known.setdefault(k["id"], (k, v))
        else:
            fresh.append(v)
    for kid, (k, v) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (mod.PROPERTY, kid, k["what"]))
    if only_unit is None:
        write_evidence(mod, tier, seed, merged, fresh, wall, len(units))
    for i, v in enumerate(fresh[:5]):
        d = os.path.join(VERIF, "replays", mod.PROPERTY)
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((v["unit"] + "\0" + v["case"]).encode()).hexdigest()[:12]
        p = os.path.join(d, h + ".json")
        with open(p, "w") as f:
            json.dump({"property": mod.PROPERTY, "tier": tier, "seed": seed, "unit": v["unit"], "case": v["case"],
                       "error": v["error"]}, f, indent=1)
        print("case %s\n  %s" % (v["case"][:1500], v["error"]))
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, p))
    sys.stdout.flush()
    if fresh:
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR %s" % e)
        return 2
    c = merged["counts"]
    if only_unit is None and not c.get("cases"):
        print("ERROR: nothing was explored")
        return 2
    print("%s %s: property held on %d cases in %d units, %.1f s; %s; distinct %s"
          % (mod.PROPERTY, tier, c.get("cases", 0), merged["units"], wall,
             ", ".join("%s=%d" % i for i in sorted(c.items()) if i[0] != "cases"),
             {k: len(v) for k, v in sorted(merged["distinct"].items())}))
    return 0
