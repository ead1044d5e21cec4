"""Python side of the file system interposer fsx.c, see there.

`ensure()` compiles it and executes the check again with the library preloaded."""
import ctypes
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from mc.core import HarnessError

KINDS = ("open_r open_w create read write close_r close_w rename unlink mkdir rmdir chmod link trunc stat opendir mmap sync utime start").split()
K = {n: i for i, n in enumerate(KINDS)}
OFF, LOG, CRASH, FAULT, SCHED = range(5)
RUNNING, WAITING, DONE = 1, 2, 3


def mask(names):
    return sum(1 << K[n] for n in names.split())


MUTATING = mask("open_w create write close_w rename unlink mkdir rmdir chmod link trunc sync utime")
ALL = (1 << K["start"]) - 1

lib = None


def ensure():
    """Make sure the library is loaded: compile it, and execute this very command again with it
    :return: exit status if the command was executed again, else None"""
    global lib
    so = os.environ.get("MC_FSX_SO")
    if so:
        lib = ctypes.CDLL(so)
        for n in ("fsx_disarm", "fsx_fired", "fsx_log_size", "fsx_part_size"):
            getattr(lib, n).restype = ctypes.c_long
        for n in ("fsx_log_path", "fsx_part_path"):
            getattr(lib, n).restype = ctypes.c_char_p
        lib.fsx_arm.argtypes = (ctypes.c_int, ctypes.c_ulong, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int)
        return None
    from mc.core import scratch_base
    d = tempfile.mkdtemp(prefix="mc-fsx-", dir=scratch_base())
    try:
        so = d + "/fsx.so"
        subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so,
                               os.path.join(os.path.dirname(os.path.abspath(__file__)), "fsx.c"), "-ldl", "-lpthread"])
        env = dict(os.environ, MC_FSX_SO=so, LD_PRELOAD=so)
        p = subprocess.Popen([sys.executable, "-X", "utf8", "-m", "mc.run"] + sys.argv[1:], env=env)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda n, f: p.send_signal(n))
        return p.wait()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Point:
    """A recorded call"""

    def __init__(self, i):
        self.kind = KINDS[lib.fsx_log_kind(i)]
        self.part = lib.fsx_log_part(i)
        self.size = lib.fsx_log_size(i)
        self.path = lib.fsx_log_path(i).decode("utf8", "replace")

    def __repr__(self):
        return "%s(%s%s)" % (self.kind, self.path, ", %d" % self.size if self.kind in ("write", "read", "trunc") else "")


def new(root):
    """Observe everything below root from now on"""
    r = lib.fsx_new(root.encode())
    if r:
        raise HarnessError("fsx_new: %d" % r)


def arm(mode, kinds=ALL, k=-1, err=0, partial=-1, persistent=False):
    lib.fsx_arm(mode, kinds, k, err, partial, int(persistent))


def disarm():
    return lib.fsx_disarm()


def log():
    n = lib.fsx_nlog()
    if n >= 4096:
        raise HarnessError("too many calls to record")
    return [Point(i) for i in range(n)]


def in_child(fn, *args):
    """Execute fn in a forked child. :return: exit status: 0 if it returned, 3 if it raised, 77 if it crashed as ordered"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            fn(*args)
            code = 0
        except BaseException:
            if os.environ.get("MC_DEBUG"):
                import traceback
                traceback.print_exc()
        finally:
            os._exit(code)
    try:
        while True:
            r, status = os.waitpid(pid, os.WNOHANG)
            if r:
                break
            time.sleep(0.0002)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    return os.waitstatus_to_exitcode(status)
