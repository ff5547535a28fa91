"""Small shared pieces: recorded choices, canonical values, isolated runs."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time as _time
import traceback

# real clock, kept before any seam replaces it
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep

REPO = os.environ.get("DST_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, detail=""):
        super().__init__("{}: {}".format(kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself cannot go on: never reported as a violation."""


class Choices:
    """Every nondeterministic decision of a run is drawn here and recorded.

    Without ``replay`` decisions come from a generator seeded with ``seed``;
    with ``replay`` (a list of ints) they come from the list and, when it is
    used up, are 0, the natural choice."""

    def __init__(self, seed, replay=None):
        self.rng = random.Random(seed)
        self.replay = list(replay) if replay is not None else None
        self.pos = 0
        self.taken = []

    def pick(self, n, prefer=None):
        """an int in range(n); ``prefer`` maps the generator to a biased pick"""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
            self.pos += 1
        elif prefer is not None:
            v = prefer(self.rng) % n
        else:
            v = self.rng.randrange(n)
        self.taken.append(v)
        return v

    def chance(self, p):
        """True with probability p (0 when replay is exhausted)"""
        return bool(self.pick(2, prefer=lambda r: 1 if r.random() < p else 0))


def canon(x, depth=0):
    """deterministic, type-exact text of a result (dict order kept)"""
    if depth > 60:
        return "<deep>"
    if isinstance(x, dict):
        return "{" + ", ".join(
            canon(k, depth + 1) + ": " + canon(v, depth + 1) for k, v in x.items()
        ) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(canon(i, depth + 1) for i in x) + "]"
    if isinstance(x, tuple):
        return "(" + ", ".join(canon(i, depth + 1) for i in x) + ",)"
    if isinstance(x, (set, frozenset)):
        return "set(" + ", ".join(sorted(canon(i, depth + 1) for i in x)) + ")"
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return repr(x)
    if isinstance(x, BaseException):
        return "<exc {}>".format(type(x).__name__)
    if callable(x):
        return "<callable>"
    return "<{}: {}>".format(type(x).__name__, str(x) if type(x).__repr__ is not object.__repr__ else "")


def unordered(x):
    """canonical text that ignores dict order"""
    if isinstance(x, dict):
        return "{" + ", ".join(sorted(unordered(k) + ": " + unordered(v) for k, v in x.items())) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(unordered(i) for i in x) + "]"
    return canon(x)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode("utf-8", "surrogatepass"))
        h.update(b"\0")
    return h.hexdigest()[:16]


def short(x, n=400):
    x = x if isinstance(x, str) else canon(x)
    return x if len(x) <= n else x[: n // 2] + " ..... " + x[-n // 2:]


def first_diff(a, b, ctx=70):
    """where two canonical texts part, for the report"""
    i = 0
    for i, (p, q) in enumerate(zip(a, b)):
        if p != q:
            break
    else:
        i = min(len(a), len(b))
    lo = max(0, i - ctx)
    return "at {}: expected ...{}... got ...{}...".format(i, a[lo:i + ctx], b[lo:i + ctx])


def _killgroup(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def isolated(fn, *args, timeout=60, quiet=True):
    """run fn(*args) in a forked child of its own session; returns
    ("ok", value) | ("exc", type name, text) | ("died", wait status) | ("timeout",)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setsid()
            random.seed(1)
            if quiet:
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                if not os.environ.get("DST_STDERR"):
                    os.dup2(dn, 2)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("exc", type(e).__name__, traceback.format_exc())
            try:
                data = pickle.dumps(out)
            except Exception:
                data = pickle.dumps(("exc", "PicklingError", traceback.format_exc()))
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv[:65536])
                mv = mv[n:]
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = real_monotonic() + timeout
    timed_out = False
    while True:
        left = end - real_monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf.append(chunk)
    os.close(r)
    _killgroup(pid)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("timeout",)
    data = b"".join(buf)
    if not data:
        return ("died", status)
    try:
        return pickle.loads(data)
    except Exception:
        return ("died", status)


def jdump(obj, path):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)
