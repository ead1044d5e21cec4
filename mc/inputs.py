"""Input streams and helpers to observe object directories"""
import os
from io import BytesIO


class Reader:
    """Input stream with full control: how much each read answers, what was asked for, when it fails"""

    def __init__(self, data, pattern=None, fail_at=None, end_at=None, trailing=b""):
        self.data = data if end_at is None else data[:end_at]
        self.all = self.data + (trailing if end_at is None else b"")
        self.pos = 0
        self.pattern = pattern          # sequence of maximal answers, cyclic
        self.fail_at = fail_at          # raise once this position is reached
        self.n = 0
        self.max_ask = 0
        self.asked = []
        self.overread = 0

    def read(self, size=-1):
        self.asked.append(size)
        if self.fail_at is not None and self.pos >= self.fail_at:
            raise OSError(5, "input stream failed")
        left = len(self.all) - self.pos
        if size is None or size < 0:
            size = left
        self.max_ask = max(self.max_ask, size)
        k = min(size, left)
        if self.pattern:
            k = min(k, self.pattern[self.n % len(self.pattern)])
            self.n += 1
        if self.fail_at is not None:
            k = min(k, self.fail_at - self.pos)
            if k == 0 and size:
                raise OSError(5, "input stream failed")
        r = self.all[self.pos:self.pos + k]
        self.pos += k
        return r


def tree(root):
    """{relative path: (kind, mode, content)} of everything below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        for n in dirs:
            out[os.path.normpath(os.path.join(rel, n))] = ("dir", None, None)
        for n in files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[os.path.normpath(os.path.join(rel, n))] = ("file", st.st_mode & 0o7777, f.read())
    return out


def files(root):
    return {k: v for k, v in tree(root).items() if v[0] == "file"}


def listing(root):
    out = []
    for d, dirs, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        out.extend(os.path.normpath(os.path.join(rel, n)) for n in fs)
    return sorted(out)


def loose_path(sha):
    h = sha.hex()
    return h[:2] + "/" + h[2:]


def fd_count():
    return len(os.listdir("/proc/self/fd"))


def own_fds():
    """Descriptors, except for those of pack files mapped for reading, which are kept for later"""
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            path = os.readlink("/proc/self/fd/" + n)
            if path.replace(" (deleted)", "").endswith((".pack", ".idx")):
                with open("/proc/self/fdinfo/" + n) as f:
                    flags = int([l for l in f if l.startswith("flags:")][0].split()[1], 8)
                if flags & os.O_ACCMODE == os.O_RDONLY:
                    continue
            out.append(path)
        except OSError:
            pass
    return out


def put(path, data):
    """A file which is there at once"""
    with open(path + ".tmp", "wb") as f:
        f.write(data)
    os.rename(path + ".tmp", path)
