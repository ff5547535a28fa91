"""Simulated thread scheduling.

Real threads, one running at a time (a baton).  The running thread can lose the
baton at any traced line (or byte code, in opcode mode) of ttp or of template
macro code; when, and to whom, are recorded choices.  Locks taken through
``threading`` are cooperative; no switch happens while the import system is on
the stack, because its locks are real."""
import _thread
import os
import sys
import threading
import time

from .core import REPO, HarnessError, Violation, digest

SCHED = None
_ident = _thread.get_ident
_real_sleep = time.sleep
TTP = os.path.join(os.path.realpath(REPO), "ttp") + os.sep
PLUGINS = tuple(os.path.join(TTP, d) for d in ("match", "group", "input", "output", "returners", "formatters", "variable", "utils", "lookup"))


class _T:
    def __init__(self, n):
        self.n = n
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.ident = None
        self.state = "ready"       # ready | blocked | parked | sleeping | done
        self.wake = None
        self.where = None
        self.error = None
        self.lines = 0


class Scheduler:
    MAX_SWITCH = 200000

    MAX_HOT = 4000
    MAX_PARK = 6

    def __init__(self, choices, gaps=200, pcall=0.0, opcodes=False, hot=None):
        # hot: (seed, one of how many functions) - threads are switched more often inside these functions
        self.hot = hot
        self.hots = {}
        self.hot_left = self.MAX_HOT
        self.parks = {}
        self.ch = choices
        self.gaps = gaps
        self.pcall = pcall
        self.opcodes = opcodes
        self.threads = []
        self.cur = None
        self.left = 0
        self.log = []
        self.switches = 0
        self.lines = 0
        self.now = 0.0
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.failure = None
        self.files = {}

    # ---------------------------------------------------------------- running
    def run(self, funcs):
        global SCHED
        SCHED = self
        self.threads = [_T(i) for i in range(len(funcs))]
        for t, f in zip(self.threads, funcs):
            _thread.start_new_thread(self._body, (t, f))
        # wait until every thread is parked
        for t in self.threads:
            while t.ident is None:
                _real_sleep(0)
        self.cur = self.threads[self.ch.pick(len(self.threads))]
        self._draw()
        self.cur.sem.release()
        self.main.acquire()
        SCHED = None
        if self.failure is not None:
            raise self.failure

    def _body(self, t, f):
        t.ident = _ident()
        t.sem.acquire()
        try:
            sys.settrace(self._global)
            f()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self.log.append(("end", t.n))
            self._next(t)

    def _draw(self):
        self.left = 1 + self.ch.pick(1 << 16, prefer=lambda r: min(int(r.expovariate(1.0 / self.gaps)), 60000))

    def _runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def _next(self, me):
        """hand the baton over; returns when me gets it back (unless done)"""
        self.switches += 1
        if self.switches > self.MAX_SWITCH:
            self.failure = Violation("no-termination", "more than {} thread switches".format(self.MAX_SWITCH))
            self.main.release()
            me.sem.acquire()
            return
        run = self._runnable()
        if not run:
            # nobody else comes by
            run = [t for t in self.threads if t.state == "parked"]
            for t in run:
                t.state = "ready"
        if not run:
            sl = [t for t in self.threads if t.state == "sleeping"]
            if sl:
                t = min(sl, key=lambda t: (t.wake, t.n))
                self.now = max(self.now, t.wake)
                t.state = "ready"
                run = [t]
            elif all(t.state == "done" for t in self.threads):
                self.main.release()
                return
            else:
                self.failure = Violation("deadlock", "threads {} wait for locks".format([t.n for t in self.threads if t.state == "blocked"]))
                self.main.release()
                me.sem.acquire()
                return
        nxt = run[self.ch.pick(len(run))]
        self._draw()
        self.cur = nxt
        if nxt is me and me.state != "done":
            return
        nxt.sem.release()
        if me.state != "done":
            me.sem.acquire()

    def me(self):
        i = _ident()
        for t in self.threads:
            if t.ident == i:
                return t
        return None

    # ---------------------------------------------------------------- tracing
    def interesting(self, fn):
        r = self.files.get(fn)
        if r is None:
            r = self.files[fn] = 0
            if fn == "<string>":
                r = 1
            elif not fn.startswith("<"):
                p = os.path.realpath(fn)
                if p.startswith(TTP):
                    r = 2 if p.startswith(PLUGINS) else 1
            self.files[fn] = r
        return r

    def _global(self, frame, event, arg):
        k = self.interesting(frame.f_code.co_filename)
        if not k:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        if k == 2 and self.pcall and self.ch.chance(self.pcall):
            self._switch(frame)
        if self.hot:
            c = frame.f_code
            key = (os.path.basename(c.co_filename), c.co_name)
            h = self.hots.get(key)
            if h is None:
                # hot[1]: one of how many functions, or which functions
                h = self.hots[key] = list(key) in self.hot[1] if isinstance(self.hot[1], list) else int(digest(repr((self.hot[0],) + key)), 16) % self.hot[1] == 0
            if h:
                self._meet(frame, key)
                return self._local_hot
        return self._local

    def _meet(self, frame, key):
        """wait in a hot function until another thread enters it too"""
        me = self.cur
        if me is None or me.ident != _ident():
            return
        met = [t for t in self.threads if t.state == "parked" and t.where == key]
        for t in met:
            t.state = "ready"
        if met:
            self._switch(frame)
        elif self.parks.get(key, 0) < self.MAX_PARK and len(self._runnable()) > 1 and self.ch.chance(0.25 if key in self.parks else 0.5):
            self.parks[key] = self.parks.get(key, 0) + 1
            me.where = key
            self._switch(frame, "parked")

    def _local_hot(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.lines += 1
            self.left -= 1
            if self.left <= 0:
                self._switch(frame)
            elif self.hot_left > 0:
                self.hot_left -= 1
                if self.ch.chance(0.5 if isinstance(self.hot[1], list) else 0.3):
                    self._switch(frame)
        return self._local_hot

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.lines += 1
            self.left -= 1
            if self.left <= 0:
                self._switch(frame)
        return self._local

    def _switch(self, frame, state=None):
        me = self.cur
        if me is None or me.ident != _ident():
            return
        f = frame
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith("<frozen importlib"):
                self.left = 1
                return
            f = f.f_back
        fn = frame.f_code.co_filename
        self.log.append((me.n, fn[len(TTP):] if fn.startswith(TTP) else os.path.basename(fn), frame.f_lineno))
        if state:
            me.state = state
        self._next(me)

    # ---------------------------------------------------- blocking operations
    def block(self, me):
        me.state = "blocked"
        self._next(me)

    def unblock(self):
        for t in self.threads:
            if t.state == "blocked":
                t.state = "ready"

    def sleep(self, me, s):
        me.state = "sleeping"
        me.wake = self.now + max(0.0, s)
        self.log.append(("sleep", me.n))
        self._next(me)

    def loghash(self):
        return digest(repr(self.log))


class SimLock:
    """cooperative under a scheduler, a real lock otherwise"""

    def __init__(self, rec=False):
        self._l = _thread.RLock() if rec else _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        me = s.me() if s is not None else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.block(me)
        return True

    def release(self):
        self._l.release()
        s = SCHED
        if s is not None:
            s.unblock()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()



class SimRLock(SimLock):
    def __init__(self):
        SimLock.__init__(self, True)

    def locked(self):
        raise AttributeError("locked")

    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        return self._l._release_save()

    def _acquire_restore(self, s):
        return self._l._acquire_restore(s)


class Called:
    """which functions of ttp are called"""

    def __init__(self):
        self.keys = set()
        self.files = {}

    def __call__(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            k = self.files.get(c.co_filename)
            if k is None:
                p = os.path.realpath(c.co_filename)
                k = self.files[c.co_filename] = os.path.basename(os.path.dirname(p)) if p.startswith(TTP) else ""
            if k and not c.co_name.startswith("<"):
                self.keys.add((k, os.path.basename(c.co_filename), c.co_name))


def install():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda *a, **k: SimRLock()


def sim_sleep(s):
    """True when a simulated thread slept"""
    sch = SCHED
    if sch is not None:
        me = sch.me()
        if me is not None:
            sch.sleep(me, s)
            return True
    return False
