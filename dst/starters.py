"""Several real processes over one simulated disk.

Every file operation below the simulated roots stops its process until the
controller lets it go on; the controller is the only one who decides who goes
next and what the operation meets: success, an error, a short or torn write, or
the end of the process.  Between two such operations a process runs alone with
its private memory, so the order of operations is the whole schedule."""
import os
import pickle
import select
import shutil
import signal
import struct

from . import core, fs


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[fs._write(fd, b):]


def _recv(fd, timeout=None):
    def exact(n):
        out = b""
        while len(out) < n:
            if timeout is not None and not select.select([fd], [], [], timeout)[0]:
                raise TimeoutError()
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = exact(4)
    if h is None:
        return None
    b = exact(struct.unpack("<I", h)[0])
    return None if b is None else pickle.loads(b)


class Proc:
    def __init__(self, n, fn, args, roots, setup=None):
        self.n = n
        self.state = "run"        # run | parked | done | dead
        self.req = None
        self.value = None
        self.ops = 0
        cr, cw = os.pipe()
        rr, rw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(cw)
                os.close(rr)
                os.setsid()

                def hook(op, path, size):
                    _send(rw, ("op", op, path, size))
                    return _recv(cr) or None
                sim = fs.Sim(roots[0], hook)
                if setup:
                    setup(n, sim)
                with fs.active(sim):
                    try:
                        out = ("ok", fn(*args))
                    except BaseException as e:
                        import traceback
                        out = ("exc", type(e).__name__, traceback.format_exc())
                _send(rw, ("end", out))
            except BaseException:
                code = 99
            finally:
                os._exit(code)
        os.close(cr)
        os.close(rw)
        self.to, self.frm = cw, rr

    def wait(self, timeout):
        """until the process stops at an operation or ends"""
        m = _recv(self.frm, timeout)
        if m is None:
            self.state = "dead"
        elif m[0] == "op":
            self.state, self.req = "parked", m[1:]
        else:
            self.state, self.value = "done", m[1]
        if self.state != "parked":
            self.reap()

    def go(self, action, timeout):
        self.state = "run"
        self.ops += 1
        _send(self.to, action)
        self.wait(timeout)

    def reap(self):
        core._killgroup(self.pid)
        os.waitpid(self.pid, 0)
        for fd in (self.to, self.frm):
            try:
                os.close(fd)
            except OSError:
                pass


class Controller:
    """fault(proc, op, rel, size, disk) -> None or an action"""

    def __init__(self, root, choices, fault=None, timeout=60, stay=0.0, maxops=20000, known=()):
        self.root = os.path.realpath(root)
        self.ch = choices
        self.fault = fault
        self.timeout = timeout
        self.stay = stay
        self.maxops = maxops
        self.log = []
        self.names = {}
        self.known = set(known)
        self.fired = {}
        self.ops = 0
        self.disk = Disk(self.root)
        self.switches = 0

    def rel(self, path):
        """stable name of a path: names not known before are numbered as they appear"""
        r = os.path.relpath(path, self.root)
        if r in self.known:
            return r
        if r not in self.names:
            self.names[r] = "new#{}".format(len(self.names))
        return self.names[r]

    def rank(self, path):
        """order of names that does not depend on process numbers in them"""
        r = os.path.relpath(path, self.root)
        if r in self.names:
            return (1, int(self.names[r][4:]), "")
        return (0, 0, r) if r in self.known else (2, len(r), r)

    def run(self, procs):
        try:
            for p in procs:
                p.wait(self.timeout)
            last = None
            while True:
                live = [p for p in procs if p.state == "parked"]
                if not live:
                    break
                self.ops += 1
                if self.ops > self.maxops:
                    raise core.Violation("no-termination", "more than {} file operations".format(self.maxops))
                if last in live:
                    i = live.index(last)
                    k = self.ch.pick(len(live), prefer=lambda r: i if r.random() < self.stay else r.randrange(len(live)))
                else:
                    k = self.ch.pick(len(live))
                p = live[k]
                self.switches += p is not last
                last = p
                op, path, size = p.req
                rel = self.rel(path)
                act = self.fault(p, op, rel, size) if self.fault else None
                self.log.append((p.n, op, rel, size if op == "write" else 0, act[0] if act else ""))
                if act:
                    k = act[1] if act[0] == "err" else act[0]
                    self.fired["{}@{}".format(k, op)] = self.fired.get("{}@{}".format(k, op), 0) + 1
                if act and act[0] == "power":
                    raise Power()
                self.disk.before(op, path)
                p.go(act, self.timeout)
                if p.state != "parked":
                    self.log.append((p.n, "end", p.state, 0, ""))
        except Power:
            for p in procs:
                if p.state in ("parked", "run"):
                    p.state = "dead"
                    p.reap()
            self.disk.power_loss(self.ch, self.log, self.rank)
            self.fired["power_loss"] = self.fired.get("power_loss", 0) + 1
        except TimeoutError:
            stuck = [p.n for p in procs if p.state == "run"]
            raise core.Violation("hang", "processes {} make no progress".format(stuck))
        finally:
            for p in procs:
                if p.state in ("parked", "run"):
                    p.state = "dead"
                    try:
                        p.reap()
                    except OSError:
                        pass

    def loghash(self):
        return core.digest(repr(self.log))


class Power(Exception):
    pass


class Disk:
    """what of each file would survive a power failure

    File content is safe once fsync was called on it after its last write; the
    name of a new or renamed file is safe or not as the journal pleases."""

    def __init__(self, root):
        self.root = root
        self.unsynced = {}    # inode -> path last seen, written since the last fsync
        self.replaced = {}    # path -> bytes it had before an unsynced file was renamed onto it

    def before(self, op, path):
        try:
            if op in ("write", "open-w", "open-a", "open-x", "truncate"):
                if op == "open-w" and os.path.isfile(path):
                    with fs._real["open"](path, "rb") as f:
                        self.replaced.setdefault(path, f.read())
                self.unsynced[path] = True
            elif op == "fsync":
                self.unsynced.pop(path, None)
            elif op in ("replace", "rename"):
                # path is the target here
                if os.path.isfile(path):
                    with fs._real["open"](path, "rb") as f:
                        self.replaced[path] = f.read()
                else:
                    self.replaced[path] = None
        except OSError:
            pass

    def power_loss(self, ch, log, rank):
        for d, dirs, files in sorted(os.walk(self.root)):
            dirs.sort()
            for i, name in enumerate(sorted(files, key=lambda n: rank(os.path.join(d, n)))):
                path = os.path.join(d, name)
                if os.path.islink(path):
                    continue
                with fs._real["open"](path, "rb") as f:
                    data = f.read()
                src = path in self.unsynced or any(os.path.dirname(u) == d and not os.path.exists(u) for u in self.unsynced)
                if path not in self.unsynced and not (path in self.replaced and src):
                    continue
                k = ch.pick(7)
                n = ch.pick(max(1, len(data) + 1))
                old = self.replaced.get(path)
                if k == 0:
                    new = data
                elif k == 1:
                    new = data[:n]
                elif k == 2:
                    new = data[:n] + b"\0" * (len(data) - n)
                elif k == 3:
                    new = b""
                elif k == 4:
                    new = b"\0" * len(data)
                elif k == 5 and path in self.replaced:
                    new = old
                else:
                    new = None if path not in self.replaced else data[:n // 512 * 512]
                log.append((-1, "power", "file{}".format(i), k, ""))
                if new is None:
                    os.unlink(path)
                else:
                    with fs._real["open"](path, "wb") as f:
                        f.write(new)
