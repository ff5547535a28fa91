"""Simulated multiprocessing.

``install()`` replaces multiprocessing.Process, Queue, JoinableQueue,
SimpleQueue, cpu_count and get_context by versions that use the simulator when
one is active (``Kernel.activate``) and the real ones otherwise.

A simulated process is a real forked child (real separate memory, real plugin
and macro reloading, real pickling) that stops at every queue operation and
waits for the kernel.  The kernel lives in the client process and runs inside
its blocking calls; exactly one process executes at any moment, and the next
step (who runs, whose buffered item reaches the pipe, whose timeout fires) is a
recorded choice."""
import errno
import multiprocessing
import os
import queue as _queue
import signal
import socket
import time
import traceback
from multiprocessing.connection import Connection
from multiprocessing.reduction import ForkingPickler

from . import simfault
from .core import HarnessError, Violation, digest

_real = {n: getattr(multiprocessing, n) for n in
         ("Process", "Queue", "JoinableQueue", "SimpleQueue", "cpu_count", "get_context", "active_children")}
_real_time = {n: getattr(time, n) for n in ("sleep", "time", "monotonic")}
_real_os_cpu_count = os.cpu_count

KERNEL = None      # active kernel (client side)
WORKER = None      # set in a simulated worker: _WorkerSide


class _Actor:
    def __init__(self, aid):
        self.id = aid
        self.pid = None
        self.conn = None
        self.op = None          # pending operation
        self.phase = None       # get: None -> "locked"
        self.nops = 0
        self.alive = True
        self.exitcode = None
        self.exiting = None
        self.tb = None
        self.buffers = {}       # queue id -> number of unflushed items
        self.prio = 0
        self.got = 0


class Kernel:
    MAX_STEPS = 60000
    MAX_IDLE = 400              # timeouts in a row with nothing else to run

    def __init__(self, choices, cpus=2, faults=(), pipe_cap=None, uniform=0.3, spurious=4):
        self.ch = choices
        self.cpus = cpus
        self.faults = [dict(f) for f in faults]
        self.pipe_cap = pipe_cap
        self.uniform = uniform
        self.spurious = spurious
        self.now = 0.0
        self.queues = []
        self.parent = _Actor(0)
        self.workers = []
        self.log = []
        self.fired = {}
        self.steps = 0
        self.idle = 0
        self.draining = False

    # ------------------------------------------------------------- life cycle
    def activate(self):
        global KERNEL
        KERNEL = self
        return self

    def deactivate(self):
        global KERNEL
        KERNEL = None
        for w in self.workers:
            self._destroy(w)

    def note(self, *ev):
        self.log.append(ev)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def loghash(self):
        return digest(repr(self.log))

    def actor(self, aid):
        return self.parent if aid == 0 else self.workers[aid - 1]

    # --------------------------------------------------------------- workers
    def new_worker(self, proc):
        wid = len(self.workers) + 1
        for f in self.faults:
            if f["kind"] == "start_fails" and f["worker"] == wid and not f.get("done"):
                f["done"] = True
                self.fire("start_fails")
                self.note("start_fails", wid)
                raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        a = _Actor(wid)
        armed = []
        for f in self.faults:
            if f["kind"] in ("load_fails", "open_fails") and f["worker"] == wid and not f.get("done"):
                f["done"] = True
                self.fire(f["kind"])
                armed.append(f)
        s1, s2 = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            s1.close()
            for w in self.workers:
                if w.conn is not None:
                    try:
                        w.conn.close()
                    except OSError:
                        pass
            _worker_main(proc, wid, Connection(s2.detach()), armed)
            os._exit(98)
        s2.close()
        a.pid = pid
        a.conn = Connection(s1.detach())
        a.prio = self.ch.pick(8)
        self.workers.append(a)
        self.note("start", wid)
        self._receive(a)
        # a started process runs (or not) before the client goes on
        self.client_op(("yield",))
        return a

    def _absolute(self, op):
        """timeouts become points of simulated time"""
        if op[0] in ("get", "wait_exit", "sleep") and op[-1] is not None:
            return tuple(op[:-1]) + (self.now + max(0.0, op[-1]),)
        return op

    def _destroy(self, a):
        if a.pid is not None:
            try:
                os.kill(a.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.waitpid(a.pid, 0)
            except ChildProcessError:
                pass
            a.pid = None
        if a.conn is not None:
            a.conn.close()
            a.conn = None

    def kill(self, a, sig=9, why="kill"):
        if not a.alive:
            return
        self.note(why, a.id)
        self._dead(a, -sig)

    def _dead(self, a, code):
        a.alive = False
        a.exitcode = code
        a.op = None
        a.buffers = {}
        # a lock held by a dead process stays held: q.rlock keeps its id
        if a.pid is not None:
            try:
                os.kill(a.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.waitpid(a.pid, 0)
            except ChildProcessError:
                pass
            a.pid = None
        if a.conn is not None:
            a.conn.close()
            a.conn = None

    def _receive(self, a):
        """let a's real process run until its next operation"""
        try:
            msg = a.conn.recv()
        except (EOFError, OSError):
            # ended without passing through the simulator (os._exit, crash)
            st = 1
            try:
                _, status = os.waitpid(a.pid, 0)
                a.pid = None
                st = os.waitstatus_to_exitcode(status)
            except ChildProcessError:
                pass
            self.note("gone", a.id, st)
            self.fire("worker_exit")
            self._dead(a, st)
            return
        a.nops += 1
        a.op = self._absolute(msg)
        a.phase = None
        if msg[0] == "exit":
            a.exiting = msg[1]
            a.tb = msg[2]
            if msg[1] not in (0, None):
                self.fire("worker_exception")
        for f in self.faults:
            if f["kind"] == "kill" and f["worker"] == a.id and f["at"] == a.nops and not f.get("holding"):
                if not f.get("done"):
                    f["done"] = True
                    self.fire("worker_killed")
                    self.kill(a)
                    return

    # ------------------------------------------------------------- scheduling
    def _enabled(self):
        acts = []
        p = self.parent
        if p.op is not None and self._can(p):
            acts.append(("run", 0))
        for a in self.workers:
            if a.alive and a.op is not None and self._can(a):
                acts.append(("run", a.id))
        for q in self.queues:
            for aid in sorted(q.buffered):
                if q.buffered[aid] and (self.pipe_cap is None or len(q.items) < self.pipe_cap):
                    if aid == 0 or (self.workers[aid - 1].alive):
                        acts.append(("flush", q.id, aid))
        return acts

    def _timeouts(self):
        t = []
        p = self.parent
        if p.op is not None and self._deadline(p) is not None and not self._can(p):
            t.append(("timeout", 0))
        for a in self.workers:
            if a.alive and a.op is not None and self._deadline(a) is not None and not self._can(a):
                t.append(("timeout", a.id))
        return t

    def _deadline(self, a):
        op = a.op
        if op[0] in ("get", "wait_exit", "sleep", "join"):
            return op[-1]
        return None

    def _can(self, a):
        op = a.op
        k = op[0]
        if k == "get":
            q = self.queues[op[1]]
            if a.phase is None:
                if q.rlock is None:
                    return True
                return not op[2]           # non-blocking: returns Empty
            return bool(q.items) or not op[2]
        if k == "join":
            return self.queues[op[1]].unfinished <= 0
        if k == "wait_exit":
            return not self.workers[op[1] - 1].alive
        if k == "sleep":
            return False
        if k == "exit":
            return not any(q.buffered.get(a.id) for q in self.queues if a.id not in q.nojoin)
        return True

    def _prio(self, act):
        if act[0] == "run":
            return (self.actor(act[1]).prio, act[1])
        if act[0] == "flush":
            q = self.queues[act[1]]
            return (q.prio, 100 + act[2])
        return (-1, 0)

    def step(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Violation("no-termination", "more than {} simulated steps".format(self.MAX_STEPS))
        acts = self._enabled()
        touts = self._timeouts()
        if acts:
            self.idle = 0
        else:
            if not touts:
                return False
            self.idle += 1
            if self.idle > self.MAX_IDLE and not self.draining:
                raise Violation("hang", "{} timeouts in a row ({}s simulated) and nothing else can run: {}".format(
                    self.idle, round(self.now), self.describe()))
        choices = acts + (touts if not acts or self.spurious > 0 else [])
        def prefer(rng):
            if rng.random() < self.uniform:
                if acts and rng.random() < 0.93:
                    return rng.randrange(len(acts))
                return rng.randrange(len(choices))
            best = max(range(len(acts) or len(choices)), key=lambda i: self._prio(choices[i]))
            if rng.random() < 0.06:
                for a in [self.parent] + self.workers:
                    a.prio = rng.randrange(8)
                for q in self.queues:
                    q.prio = rng.randrange(8)
            return best
        act = choices[self.ch.pick(len(choices), prefer)]
        if act[0] == "timeout":
            if acts:
                self.spurious -= 1
                self.fire("early_timeout")
            dl = self._deadline(self.actor(act[1]))
            self.now = max(self.now, dl)
            self.note("timeout", act[1])
            self._finish(self.actor(act[1]), timeout=True)
        elif act[0] == "flush":
            self._flush(self.queues[act[1]], act[2])
        else:
            self._finish(self.actor(act[1]))
        return True

    def _flush(self, q, aid):
        """the feeder thread of process aid moves one item into the pipe"""
        if aid == 0:
            obj = q.local.pop(0)
            q.buffered[0] -= 1
            try:
                data = bytes(ForkingPickler.dumps(obj))
            except Exception:
                self.note("flush_failed", q.id, 0)
                self.fire("item_lost_unpicklable")
                return
        else:
            a = self.workers[aid - 1]
            q.buffered[aid] -= 1
            a.conn.send(("flush", q.id))
            try:
                ok, data = a.conn.recv()
            except (EOFError, OSError):
                raise HarnessError("worker died while flushing")
            if not ok:
                self.note("flush_failed", q.id, aid)
                self.fire("item_lost_unpicklable")
                return
        q.items.append(data)
        self.note("flush", q.id, aid)

    def _finish(self, a, timeout=False):
        op = a.op
        k = op[0]
        reply = ("ok", None)
        if k == "get":
            q = self.queues[op[1]]
            if timeout:
                if q.rlock == a.id:
                    q.rlock = None
                reply = ("empty", None)
            elif a.phase is None:
                if q.rlock is not None:
                    reply = ("empty", None)
                else:
                    q.rlock = a.id
                    a.phase = "locked"
                    a.got += 1
                    self.note("lock", q.id, a.id)
                    for f in self.faults:
                        if (f["kind"] == "kill" and f["worker"] == a.id and f.get("holding")
                                and f["at"] == a.got and not f.get("done")):
                            f["done"] = True
                            self.fire("worker_killed_holding_lock")
                            self.kill(a)
                            return
                    if not q.items and op[2]:
                        return
                    if q.items:
                        reply = ("item", q.items.pop(0))
                    else:
                        reply = ("empty", None)
                    q.rlock = None
            else:
                if q.items:
                    reply = ("item", q.items.pop(0))
                else:
                    reply = ("empty", None)
                q.rlock = None
            self.note("get", q.id, a.id, reply[0])
        elif k == "put":
            q = self.queues[op[1]]
            q.buffered[a.id] = q.buffered.get(a.id, 0) + 1
            q.unfinished += 1 if q.joinable else 0
            self.note("put", q.id, a.id)
        elif k == "task_done":
            q = self.queues[op[1]]
            self.note("task_done", q.id, a.id)
            if q.unfinished <= 0:
                reply = ("error", "task_done() called too many times")
            else:
                q.unfinished -= 1
        elif k == "join":
            self.note("joined", op[1], a.id)
            reply = ("ok", not timeout)
        elif k == "size":
            reply = ("ok", len(self.queues[op[1]].items))
        elif k == "nojoin":
            self.queues[op[1]].nojoin.add(a.id)
        elif k == "wait_exit":
            self.note("wait_exit", op[1], a.id, timeout)
        elif k == "exit":
            self.note("exit", a.id, a.exiting)
            code = a.exiting
            a.conn.send(("reply", reply))
            a.op = None
            try:
                os.waitpid(a.pid, 0)
            except ChildProcessError:
                pass
            a.pid = None
            self._dead(a, code)
            return
        a.op = None
        if a is self.parent:
            self.parent_reply = reply
            return
        a.conn.send(("reply", reply))
        self._receive(a)

    # --------------------------------------------------- called by the client
    def client_op(self, op):
        p = self.parent
        if p.op is not None:
            raise HarnessError("client re-entered the simulator")
        if op[0] in ("get", "put"):
            p.nops += 1
            for f in self.faults:
                if f["kind"] == "interrupt" and f["at"] == p.nops and not f.get("done"):
                    f["done"] = True
                    self.fire("caller_interrupted")
                    self.note("interrupt")
                    raise KeyboardInterrupt("injected")
        p.op = self._absolute(op)
        p.phase = None
        try:
            while p.op is not None:
                if not self.step():
                    raise Violation("hang", "client waits for {} and nothing can run: {}".format(op[:2], self.describe()))
        finally:
            p.op = None
        return self.parent_reply

    def drain(self, limit=5000):
        """after the client's call returned: let the rest run"""
        self.draining = True
        n = 0
        while n < limit and self.idle < 20 and self.step():
            n += 1

    def leftovers(self):
        return [a for a in self.workers if a.alive]

    def stuck_feeders(self):
        return [q.id for q in self.queues if q.buffered.get(0) and 0 not in q.nojoin]

    def describe(self):
        d = []
        for a in self.workers:
            if a.alive:
                d.append("worker {} in {}".format(a.id, a.op[:2] if a.op else None))
            else:
                d.append("worker {} ended({})".format(a.id, a.exitcode))
        for q in self.queues:
            d.append("queue {}: {} items, {} unfinished, lock {}".format(q.id, len(q.items), q.unfinished, q.rlock))
        return "; ".join(d)


class _QState:
    def __init__(self, qid, joinable):
        self.id = qid
        self.joinable = joinable
        self.items = []
        self.buffered = {}
        self.local = []
        self.unfinished = 0
        self.rlock = None
        self.prio = 0
        self.nojoin = set()


class _WorkerSide:
    def __init__(self, wid, conn):
        self.wid = wid
        self.conn = conn
        self.buffers = {}

    def rpc(self, *msg):
        self.conn.send(msg)
        while True:
            try:
                cmd = self.conn.recv()
            except (EOFError, OSError):
                os._exit(0)
            if cmd[0] == "reply":
                return cmd[1]
            obj = self.buffers[cmd[1]].pop(0)
            try:
                data = (True, bytes(ForkingPickler.dumps(obj)))
            except BaseException:
                data = (False, None)
            self.conn.send(data)


def _worker_main(proc, wid, conn, armed=()):
    global WORKER, KERNEL
    code, tb = 1, None
    try:
        WORKER = _WorkerSide(wid, conn)
        for f in armed:
            simfault.arm(f)
        KERNEL = None
        WORKER.rpc("hello")
        try:
            proc.run()
            code = 0
        except SystemExit as e:
            c = e.code
            code = 0 if c is None else c if isinstance(c, int) else 1
        except BaseException:
            code = 1
            tb = traceback.format_exc()
        WORKER.rpc("exit", code, tb)
    except BaseException:
        pass
    finally:
        os._exit((code or 0) & 0xFF)


# ------------------------------------------------------------------ user side
class SimQueue:
    def __init__(self, maxsize=0, joinable=False):
        k = KERNEL
        st = _QState(len(k.queues), joinable)
        st.prio = k.ch.pick(8)
        k.queues.append(st)
        self._qid = st.id
        self._joinable = joinable
        self._closed = False

    def _call(self, op):
        if WORKER is not None:
            return WORKER.rpc(*op)
        if KERNEL is None:
            raise HarnessError("simulated queue used outside a simulation")
        return KERNEL.client_op(op)

    def put(self, obj, block=True, timeout=None):
        if self._closed:
            raise ValueError("Queue is closed")
        if WORKER is not None:
            WORKER.buffers.setdefault(self._qid, []).append(obj)
        else:
            KERNEL.queues[self._qid].local.append(obj)
        self._call(("put", self._qid))

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        if self._closed:
            raise ValueError("Queue is closed")
        r = self._call(("get", self._qid, bool(block), timeout if block else None))
        if r[0] == "empty":
            raise _queue.Empty
        return ForkingPickler.loads(r[1])

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        r = self._call(("task_done", self._qid))
        if r[0] == "error":
            raise ValueError(r[1])

    def join(self):
        self._call(("join", self._qid, None))

    def empty(self):
        return self._call(("size", self._qid))[1] == 0

    def qsize(self):
        return self._call(("size", self._qid))[1]

    def full(self):
        return False

    def close(self):
        self._closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        self._call(("nojoin", self._qid))


class SimProcess:
    """stands in for multiprocessing.Process (usable as a base class)"""
    _count = 0

    def __new__(cls, *a, **k):
        if KERNEL is None and WORKER is None:
            if cls is SimProcess:
                return _real["Process"](*a, **k)
        return object.__new__(cls)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        SimProcess._count += 1
        self.name = name or "Process-{}".format(SimProcess._count)
        self.daemon = bool(daemon)
        self._actor = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._actor is None, "cannot start a process twice"
        if KERNEL is None:
            raise HarnessError("process started outside a simulation")
        self._actor = KERNEL.new_worker(self)

    @property
    def pid(self):
        return self._actor.id + 1000 if self._actor else None

    ident = pid

    @property
    def exitcode(self):
        if self._actor is None:
            return None
        KERNEL.client_op(("yield",))
        return self._actor.exitcode

    @property
    def sentinel(self):
        raise HarnessError("sentinel is not simulated")

    def is_alive(self):
        if self._actor is None:
            return False
        KERNEL.client_op(("yield",))
        return self._actor.alive

    def join(self, timeout=None):
        assert self._actor is not None, "can only join a started process"
        k = KERNEL
        k.client_op(("wait_exit", self._actor.id, timeout))

    def terminate(self):
        KERNEL.kill(self._actor, 15, "terminate")

    def kill(self):
        KERNEL.kill(self._actor, 9, "killed_by_client")

    def close(self):
        pass


def _mk(name, sim):
    def f(*a, **k):
        if KERNEL is not None:
            return sim(*a, **k)
        return _real[name](*a, **k)
    f.__name__ = name
    return f


class _Ctx:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        if n in ("Process", "Queue", "JoinableQueue", "SimpleQueue", "cpu_count"):
            return getattr(multiprocessing, n)
        return getattr(self._real, n)


def _sim_sleep(s):
    if KERNEL is not None and s is not None:
        KERNEL.client_op(("sleep", s))
        return
    if WORKER is not None:
        return
    _real_time["sleep"](s)


def install():
    multiprocessing.Process = SimProcess
    multiprocessing.Queue = _mk("Queue", lambda maxsize=0: SimQueue(maxsize))
    multiprocessing.SimpleQueue = _mk("SimpleQueue", lambda: SimQueue())
    multiprocessing.JoinableQueue = _mk("JoinableQueue", lambda maxsize=0: SimQueue(maxsize, joinable=True))
    multiprocessing.cpu_count = _mk("cpu_count", lambda: KERNEL.cpus)
    os.cpu_count = lambda: KERNEL.cpus if KERNEL is not None else _real_os_cpu_count()
    multiprocessing.get_context = lambda method=None: _Ctx(_real["get_context"](method))
    time.sleep = _sim_sleep
    for n in ("time", "monotonic"):
        setattr(time, n, (lambda real: lambda: 1.7e9 + KERNEL.now if KERNEL is not None else real())(_real_time[n]))
