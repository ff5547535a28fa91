"""Simulated file operations.

Real files in a scratch directory back the simulation; every operation that ttp
(or json, yaml, openpyxl, zipfile on its behalf) makes below ``root`` passes a
hook first, which can let it run, fail it, shorten it or end the process there.
Operations on files elsewhere are not touched."""
import builtins
import errno
import io
import os
import stat as stat_mod

SIM = None
_real = {"open": builtins.open, "io_open": io.open}
for _n in ("open", "stat", "lstat", "listdir", "scandir", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "access", "fsync", "truncate", "link", "utime", "chmod"):
    _real["os_" + _n] = getattr(os, _n)

ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS,
       "EPERM": errno.EPERM, "EEXIST": errno.EEXIST, "EDQUOT": errno.EDQUOT, "ESTALE": errno.ESTALE, "ENOTDIR": errno.ENOTDIR, "EBUSY": errno.EBUSY, "EPIPE": errno.EPIPE}


def oserror(name, path):
    e = ERR[name]
    return OSError(e, os.strerror(e), path)


class Sim:
    """hook(op, path, size) -> None | ("err", name) | ("short", n) | ("torn", n, name) | ("tear", n) | ("do", callable) | ("crash",)"""

    def __init__(self, root, hook, more=()):
        self.root = os.path.realpath(root)
        self.roots = [self.root] + [os.path.realpath(m) for m in more]
        self.fds = {}         # descriptors from os.open -> path
        self.hook = hook
        self.dirty = {}       # path -> bytes written since the last fsync
        self.depth = 0

    def mine(self, path):
        if isinstance(path, int) or path is None:
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if "\0" in p or "\n" in p or len(p) > 3000:
            return None
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        for root in self.roots:
            if p == root or p.startswith(root + os.sep):
                return p
        return None

    def crash(self):
        os._exit(137)

    def ask(self, op, path, size=0):
        act = self.hook(op, path, size)
        if act is None:
            return None
        if act[0] == "err":
            raise oserror(act[1], path)
        if act[0] == "do":
            act[1](path)
            return None
        if act[0] == "crash":
            self.crash()
        if act[0] in ("torn", "tear", "short") and op not in ("read", "write"):
            return None
        return act


class Raw(io.RawIOBase):
    """one open file; every read, write and close asks the simulator"""

    def __init__(self, sim, path, mode, fd):
        self.sim, self.path, self.mode, self.fd = sim, path, mode, fd
        self.name = path
        self.r = "r" in mode or "+" in mode
        self.w = mode[0] in "wax" or "+" in mode

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        n = len(b)
        act = self.sim.ask("read", self.path, n)
        if act and act[0] == "short":
            n = max(1, min(n, act[1]))
        data = _read(self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        n = len(b)
        act = self.sim.ask("write", self.path, n)
        if act and act[0] == "short":
            n = max(1, min(n, act[1])) if n else 0
        if act and act[0] == "torn":
            # part of the data reaches the file, then the operation fails
            _write(self.fd, b[:min(n, act[1])])
            raise oserror(act[2], self.path)
        if act and act[0] == "tear":
            _write(self.fd, b[:min(n, act[1])])
            self.sim.crash()
        done = _write(self.fd, b[:n])
        self.sim.dirty[self.path] = self.sim.dirty.get(self.path, 0) + done
        return done

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        fd, self.fd = self.fd, -1
        try:
            super().close()
        finally:
            _close(fd)
            if self.w:
                self.sim.ask("close", self.path)


_close = os.close


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = SIM
    fd = None
    if s is not None and isinstance(file, int) and file in s.fds and closefd:
        fd, path = file, s.fds.pop(file)
    else:
        path = s.mine(file) if s is not None and not s.depth else None
    if path is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    m = mode.replace("b", "").replace("t", "").replace("U", "")
    if fd is None:
        s.ask("open-" + m[0], path)
    flags = {"r": os.O_RDONLY, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[m[0]]
    if "+" in m:
        flags |= os.O_RDWR
    elif m[0] != "r":
        flags |= os.O_WRONLY
    if encoding is not None and binary:
        raise ValueError("binary mode doesn't take an encoding argument")
    if fd is None:
        if opener is not None:
            s.depth += 1
            try:
                fd = opener(file, flags | os.O_CLOEXEC)
            finally:
                s.depth -= 1
        else:
            fd = _real["os_open"](path, flags | os.O_CLOEXEC, 0o666)
    if stat_mod.S_ISDIR(os.fstat(fd).st_mode):
        _close(fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = Raw(s, path, m, fd)
    raw.name = file
    if buffering == 0:
        return raw
    size = s.bufsize if getattr(s, "bufsize", None) else io.DEFAULT_BUFFER_SIZE
    if "+" in m:
        buf = io.BufferedRandom(raw, size)
    elif m[0] == "r":
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline)
    text.mode = mode
    return text


def _wrap(name, npaths=1):
    real = _real["os_" + name]

    def f(*a, **k):
        s = SIM
        if s is not None and not s.depth and a:
            p = s.mine(a[-1 if npaths == 2 and len(a) > 1 else 0])
            if p is not None:
                s.ask(name, p)
        return real(*a, **k)
    f.__name__ = name
    return f


def _listdir(path="."):
    s = SIM
    p = s.mine(path) if s is not None and not s.depth else None
    if p is None:
        return _real["os_listdir"](path)
    act = s.ask("listdir", p)
    names = sorted(_real["os_listdir"](path))
    order = getattr(s, "order", None)
    return order(names) if order else names


def _open(path, flags, mode=0o777, *, dir_fd=None):
    s = SIM
    p = s.mine(path) if s is not None and not s.depth and dir_fd is None else None
    if p is None:
        return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
    acc = flags & os.O_ACCMODE
    s.ask("open-x" if flags & os.O_EXCL else "open-w" if flags & os.O_TRUNC else "open-r" if acc == os.O_RDONLY else "open-a", p)
    fd = _real["os_open"](path, flags, mode)
    s.fds[fd] = p
    return fd


def _osclose(fd):
    s = SIM
    if s is not None:
        s.fds.pop(fd, None)
    return _close(fd)


def _oswrite(fd, data):
    s = SIM
    p = s.fds.get(fd) if s is not None else None
    n = len(data)
    if p is not None:
        act = s.ask("write", p, n)
        if act and act[0] == "short":
            data = bytes(data)[:max(1, act[1])]
        if act and act[0] in ("torn", "tear"):
            _write(fd, bytes(data)[:act[1]])
            if act[0] == "tear":
                s.crash()
            raise oserror(act[2], p)
    return _write(fd, data)


_write = os.write
_read = os.read


def _osread(fd, n):
    s = SIM
    p = s.fds.get(fd) if s is not None else None
    if p is not None:
        act = s.ask("read", p, n)
        if act and act[0] == "short":
            n = max(1, min(n, act[1]))
    return _read(fd, n)


class _Scan:
    """os.scandir whose first use can fail"""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.it.close()

    def close(self):
        self.it.close()


def _scandir(path="."):
    s = SIM
    p = s.mine(path) if s is not None and not s.depth else None
    if p is None:
        return _real["os_scandir"](path)
    s.ask("listdir", p)
    entries = sorted(_real["os_scandir"](path), key=lambda e: e.name)
    order = getattr(s, "order", None)
    if order:
        names = order([e.name for e in entries])
        entries = sorted(entries, key=lambda e: names.index(e.name))

    def it():
        for e in entries:
            yield e
    return _Scan(it())


def _fsync(fd):
    s = SIM
    n = fd if isinstance(fd, int) else fd.fileno()
    if s is not None:
        try:
            p = s.mine(os.readlink("/proc/self/fd/{}".format(n)))
        except OSError:
            p = None
        if p is not None:
            s.ask("fsync", p)
            s.dirty.pop(p, None)
            return None
    return _real["os_fsync"](n)


def install():
    """put the seam in place; without an active Sim everything passes through"""
    builtins.open = sim_open
    io.open = sim_open
    for n in ("stat", "mkdir", "rmdir", "unlink", "remove", "access", "truncate", "chmod", "utime"):
        setattr(os, n, _wrap(n))
    for n in ("rename", "replace", "link"):
        setattr(os, n, _wrap(n, 2))
    os.listdir = _listdir
    os.scandir = _scandir
    os.fsync = _fsync
    os.open = _open
    os.close = _osclose
    os.write = _oswrite
    os.read = _osread


class active:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global SIM
        SIM = self.sim
        return self.sim

    def __exit__(self, *a):
        global SIM
        SIM = None


class Plan:
    """faults at chosen operations: list of {"op", "match" (suffix), "n", "do": action}

    Records every operation in ``log`` as (op, path below root, size)."""

    def __init__(self, root, faults=(), ops=None):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults or ()]
        self.count = 0
        self.seen = {}
        self.log = []
        self.fired = []
        self.ops = ops
        self.before = None

    def __call__(self, op, path, size):
        rel = os.path.relpath(path, self.root)
        if self.ops is not None and op not in self.ops:
            return None
        self.count += 1
        self.log.append((op, rel, size))
        for f in self.faults:
            if f.get("used") and not f.get("sticky"):
                continue
            if "index" in f:
                hit = self.count == f["index"] or f.get("sticky") and f.get("used") and (op, rel) == f["used"]
            else:
                hit = False
            if hit:
                f["used"] = (op, rel)
                self.fired.append((f["do"][0] if f["do"][0] != "err" else f["do"][1], op, rel))
                return self.action(f["do"], op, path, size)
        return None

    def action(self, do, op, path, size):
        if do[0] == "vanish":
            return ("do", _vanish)
        return tuple(do)


def _vanish(path):
    if os.path.isdir(path):
        return
    try:
        _real["os_unlink"](path)
    except FileNotFoundError:
        pass
