"""A faulty file system for one scratch directory, and process crashes.

Files are real files below the scratch directory; every operation the simulated
process makes on them (open, read, write, close, replace, remove, fsync, ...)
goes through here, where the plan can make it fail, tear it, or end the process.
A crash ends the process, not the machine: what reached write(2) stays, what was
still in a buffer of the process is lost, and nothing the dead process does while
it is being unwound reaches the disk."""
import builtins
import errno
import io
import os
import shutil
import tempfile

from dst.sim import ProcessCrash

FSYS = None  # the active file system
real_open = io.open
R = {k: getattr(os, k) for k in (
    "open", "close", "write", "read", "replace", "rename", "remove", "unlink", "fsync", "fdatasync", "truncate", "ftruncate",
    "mkdir", "rmdir", "link", "symlink", "sendfile", "copy_file_range", "pwrite", "writev") if hasattr(os, k)}

ERR = {"nospace": errno.ENOSPC, "io": errno.EIO, "quota": errno.EDQUOT, "files": errno.EMFILE, "access": errno.EACCES}


class Crash(ProcessCrash):
    """Injected at a code point: the process is dead from here on."""

    def __init__(self, *a):
        super().__init__(*a)
        if FSYS is not None:
            FSYS.kill()


class FS:
    """faults: list of {"n": number of the operation (from 1, since `arm`), "kind", ...}"""

    def __init__(self, sim, bufsize=8192):
        self.sim = sim
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dst-fs-"))
        self.bufsize = bufsize
        self.dead = set()
        self.raws = []
        self.fds = {}
        self.n = 0
        self.faults = {}
        self.full = 0
        self.fired = []
        self.log = []
        self.total = 0

    def __enter__(self):
        global FSYS
        FSYS = self
        return self

    def __exit__(self, *a):
        global FSYS
        FSYS = None
        for r in self.raws:
            try:
                r.lost = True
                r.close()
            except BaseException:  # noqa
                pass
        for fd in list(self.fds):
            try:
                R["close"](fd)
            except OSError:
                pass
        shutil.rmtree(self.root, ignore_errors=True)

    # ------------------------------------------------------------- control
    def arm(self, faults):
        """Faults for the operations from here on."""
        self.n = 0
        self.full = 0
        self.faults = {}
        for f in faults:
            if "n" in f:
                self.faults.setdefault(f["n"], f)
        self.fired = []

    def proc(self):
        return self.sim.current.node if self.sim.current is not None else None

    def kill(self):
        self.dead.add(self.proc())

    def crashed(self):
        return self.proc() in self.dead

    def die(self):
        self.kill()
        raise ProcessCrash("the process ends here")

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode(errors="replace")
        return p == self.root or p.startswith(self.root + os.sep)

    def op(self, kind, what=""):
        """Announce an operation; returns the fault to apply to it (or None)."""
        if self.crashed():
            raise ProcessCrash("already dead")
        self.sim.point("fs", kind)
        self.n += 1
        self.total += 1
        if len(self.log) < 300:
            self.log.append((kind, what))
        f = self.faults.get(self.n)
        writes = kind in ("open-write", "write", "mkdir", "close", "truncate")
        if self.full > 0 and kind in ("open-write", "write", "mkdir", "truncate"):
            self.full -= 1
            self.sim.fault("disk-full")
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), what)
        if f is None:
            return None
        k = f["kind"]
        if k == "full" and writes:
            self.full = f.get("for", 1) - 1
            self.note(f, "disk-full", kind)
            if kind == "write":
                return {"kind": "partial", "frac": f.get("frac", 0), "errno": errno.ENOSPC}
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), what)
        if k == "crash-before" or k == "torn" and kind != "write":
            self.note(f, "crash-before-" + kind, kind)
            self.die()
        if k in ("crash-after", "torn"):
            self.note(f, ("torn-" if k == "torn" else "crash-after-") + kind, kind)
            return f
        if k == "error":
            self.note(f, "error-" + kind, kind)
            e = ERR[f.get("errno", "io")]
            if kind == "write":
                return {"kind": "partial", "frac": f.get("frac", 0), "errno": e}
            if kind == "close":
                return {"kind": "close-error", "errno": e}
            raise OSError(e, os.strerror(e), what)
        if k == "short" and kind in ("write", "read"):
            self.note(f, "short-" + kind, kind)
            return f
        return None

    def note(self, f, name, kind):
        self.fired.append(name)
        self.sim.fault(name)

    def after(self, f):
        if f is not None and f["kind"] == "crash-after":
            self.die()


class Raw(io.RawIOBase):
    """An unbuffered file of a simulated process."""

    def __init__(self, fs, fd, path, readable, writable, append=False, closefd=True):
        self.fs, self.fd, self.name = fs, fd, path
        self._r, self._w, self.append = readable, writable, append
        self.owner = fs.proc()
        self.lost = False
        self.closefd = closefd
        self.mode = ("rb+" if readable else "wb") if writable else "rb"
        fs.raws.append(self)

    def gone(self):
        return self.lost or self.owner in self.fs.dead

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return self.fd

    def readinto(self, b):
        if self.gone():
            raise ProcessCrash("already dead")
        f = self.fs.op("read", self.name)
        n = len(b)
        if f is not None and f["kind"] == "short":
            n = max(1, min(n, int(f.get("frac", 0) * n)))
        data = R["read"](self.fd, n)
        b[: len(data)] = data
        self.fs.after(f)
        return len(data)

    def write(self, b):
        if self.gone():
            raise ProcessCrash("already dead")
        return do_write(self.fs, self.fd, b, self.name)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def truncate(self, size=None):
        if self.gone():
            raise ProcessCrash("already dead")
        f = self.fs.op("truncate", self.name)
        if size is None:
            size = self.tell()
        R["ftruncate"](self.fd, size)
        self.fs.after(f)
        return size

    def close(self):
        if self.closed:
            return
        f = None
        dead = self.gone() or self.fs is not FSYS
        try:
            if not dead and self._w:
                f = self.fs.op("close", self.name)
        finally:
            super().close()
            if self.closefd:
                self.fs.fds.pop(self.fd, None)
                try:
                    R["close"](self.fd)
                except OSError:
                    pass
        if f is not None and f["kind"] == "close-error":
            raise OSError(f["errno"], os.strerror(f["errno"]), self.name)
        if not dead:
            self.fs.after(f)


def do_write(fs, fd, b, name):
    b = bytes(b)
    f = fs.op("write", name)
    if f is None or f["kind"] == "crash-after":
        n = R["write"](fd, b)
        fs.after(f)
        return n
    cut = min(len(b), int(f.get("frac", 0) * len(b)))
    if f["kind"] == "short":
        return R["write"](fd, b[: max(1, cut)])
    if cut:
        R["write"](fd, b[:cut])
    if f["kind"] == "torn":
        fs.die()
    raise OSError(f["errno"], os.strerror(f["errno"]), name)


# --------------------------------------------------------------- replacements
def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FSYS
    if fs is None or fs.sim.current is None or not (fs.mine(file) if not hasattr(file, "read") else False):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    binary = "b" in m
    r = "r" in m or "+" in m
    w = bool(m & set("wax+"))
    flags = os.O_CLOEXEC | (os.O_RDWR if r and w else os.O_WRONLY if w else os.O_RDONLY)
    if "w" in m:
        flags |= os.O_CREAT | os.O_TRUNC
    if "a" in m:
        flags |= os.O_CREAT | os.O_APPEND
    if "x" in m:
        flags |= os.O_CREAT | os.O_EXCL
    f = None
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        f = fs.op("open-write" if w else "open-read", os.fspath(file))
        fd = R["open"](file, flags, 0o666)
        fs.fds[fd] = os.fspath(file)
    raw = Raw(fs, fd, file, r, w, "a" in m, closefd)
    if "a" in m:
        os.lseek(fd, 0, 2)
    fs.after(f)
    if buffering == 0:
        return raw
    size = fs.bufsize if buffering in (-1, 1) else buffering
    if r and w:
        buf = io.BufferedRandom(raw, size)
    elif w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, max(size, 64))
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def _path_op(name, kind, two=False):
    real = R[name]

    def fn(path, *a, **k):
        fs = FSYS
        if fs is None or fs.sim.current is None or not (fs.mine(path) or two and a and fs.mine(a[0])):
            return real(path, *a, **k)
        f = fs.op(kind, str(path))
        out = real(path, *a, **k)
        fs.after(f)
        return out

    return fn


def _os_open(path, flags, mode=0o777, **k):
    fs = FSYS
    if fs is None or fs.sim.current is None or not fs.mine(path):
        return R["open"](path, flags, mode, **k)
    w = flags & (os.O_WRONLY | os.O_RDWR)
    if os.path.isdir(path):
        return R["open"](path, flags, mode, **k)
    f = fs.op("open-write" if w else "open-read", str(path))
    fd = R["open"](path, flags, mode, **k)
    fs.fds[fd] = path
    fs.after(f)
    return fd


def _os_write(fd, b):
    fs = FSYS
    if fs is None or fs.sim.current is None or fd not in fs.fds:
        return R["write"](fd, b)
    return do_write(fs, fd, b, str(fs.fds[fd]))


def _os_close(fd):
    fs = FSYS
    if fs is not None and fs.sim.current is not None and fd in fs.fds:
        dead = fs.crashed()
        f = None if dead else fs.op("close", str(fs.fds[fd]))
        fs.fds.pop(fd, None)
        R["close"](fd)
        if f is not None and f["kind"] == "close-error":
            raise OSError(f["errno"], os.strerror(f["errno"]))
        if not dead:
            fs.after(f)
        return None
    return R["close"](fd)


def _unsupported(name):
    real = R[name]

    def fn(*a, **k):
        fs = FSYS
        if fs is not None and any(isinstance(x, int) and x in fs.fds for x in a):
            raise OSError(errno.ENOTSUP, os.strerror(errno.ENOTSUP))
        return real(*a, **k)

    return fn


def install():
    builtins.open = io.open = sim_open
    os.open, os.write, os.close = _os_open, _os_write, _os_close
    for n, kind, two in (("replace", "rename", True), ("rename", "rename", True), ("remove", "remove", False),
                         ("unlink", "remove", False), ("truncate", "truncate", False), ("mkdir", "mkdir", False),
                         ("rmdir", "remove", False), ("link", "link", True), ("symlink", "link", True),
                         ("fsync", "fsync", False), ("fdatasync", "fsync", False), ("ftruncate", "truncate", False)):
        setattr(os, n, _path_op(n, kind, two))
    for n in ("sendfile", "copy_file_range", "pwrite", "writev"):
        if n in R:
            setattr(os, n, _unsupported(n))


# ----------------------------------------------------------------- generation
def gen_fault(rng, ops=12):
    r = rng.random()
    if r < 0.3:
        return {"line": rng.choice([1, 2, 3, 5, 8, 12, 18, 25, 33, 40]) + rng.randrange(4)}
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, ops])
    k = rng.choice(["crash-before", "crash-after", "torn", "torn", "error", "error", "full", "short"])
    f = {"n": n, "kind": k, "frac": rng.choice([0, 0.3, 0.5, 0.9, 0.99, 1.0])}
    if k == "error":
        f["errno"] = rng.choice(sorted(ERR))
    if k == "full":
        f["for"] = rng.choice([1, 2, 5, 100])
    return f


class Process:
    """Runs steps of a simulated process and its restarts after crashes."""

    def __init__(self, sim, fs):
        self.sim, self.fs = sim, fs
        self.count = 0

    def call(self, fn, faults=()):
        """-> ("ok", value) | ("error", exception) | ("crash", None)"""
        from dst.sim import Injection

        sim, fs = self.sim, self.fs
        fs.arm(faults)
        me = sim.current
        sim.injections = [Injection(f["line"], Crash, tasks=lambda t: t is me, name="crash") for f in faults if "line" in f]
        out = err = None
        try:
            out = fn()
        except ProcessCrash:
            pass
        except Exception as e:  # noqa
            err = e
        except (KeyboardInterrupt, SystemExit) as e:
            err = e
        finally:
            inj = sim.injections
            sim.injections = []
        self.fired = bool(fs.fired) or any(i.fired for i in inj) or fs.crashed()
        fs.arm(())
        if fs.crashed():
            self.restart()
            return "crash", None
        if err is not None:
            err.__traceback__ = None if self.fired else err.__traceback__
            return "error", err
        return "ok", out

    def restart(self):
        self.count += 1
        n = self.sim.new_node(f"p{self.count}")
        self.sim.move(n)
