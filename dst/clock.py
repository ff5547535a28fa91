"""Simulated clock.

Time stands still between readings; each reading first moves it by the next step
of the run (which can be zero, tiny, up to or across a boundary, or backwards).
Every reading is recorded in nanoseconds."""
import datetime as _dt
import time as _t

CLOCK = None
real = {n: getattr(_t, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "localtime", "gmtime", "strftime", "ctime", "asctime", "sleep")}
_RealDT = _dt.datetime
_RealDate = _dt.date


class Clock:
    def __init__(self, start_ns, step=None):
        self.ns = start_ns
        self.mono = 10 ** 12
        self.step = step            # callable(clock) -> nanoseconds to move before a reading
        self.readings = []
        self.slept = []

    def read(self):
        if self.step is not None:
            d = self.step(self)
            self.ns += d
            if d > 0:
                self.mono += d
        self.readings.append(self.ns)
        return self.ns

    def advance(self, ns):
        self.ns += ns
        self.mono += max(0, ns)

    def wait_until(self, mono):
        """sleeps until the monotonic clock shows ``mono``; another simulated thread may run meanwhile"""
        from . import threads
        d = mono - self.mono
        if d > 0:
            threads.sim_sleep(d / 1e9)
            if self.mono < mono:
                self.advance(mono - self.mono)

    def mono_read(self):
        return self.mono


def _time():
    return CLOCK.read() / 1e9 if CLOCK is not None else real["time"]()


def _time_ns():
    return CLOCK.read() if CLOCK is not None else real["time_ns"]()


def _monotonic():
    return CLOCK.mono_read() / 1e9 if CLOCK is not None else real["monotonic"]()


def _monotonic_ns():
    return CLOCK.mono_read() if CLOCK is not None else real["monotonic_ns"]()


def _secs():
    return CLOCK.read() // 10 ** 9


def _localtime(s=None):
    if s is None and CLOCK is not None:
        s = _secs()
    return real["localtime"](s)


def _gmtime(s=None):
    if s is None and CLOCK is not None:
        s = _secs()
    return real["gmtime"](s)


def _strftime(fmt, t=None):
    if t is None:
        t = _localtime()
    return real["strftime"](fmt, t)


def _ctime(s=None):
    if s is None and CLOCK is not None:
        s = _secs()
    return real["ctime"](s)


def _asctime(t=None):
    return real["asctime"](t if t is not None else _localtime())


def _sleep(s):
    c = CLOCK
    if c is None:
        return real["sleep"](s)
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    c.slept.append(s)
    c.wait_until(c.mono + round(s * 1e9))


class _Meta(type(_RealDT)):
    def __instancecheck__(cls, x):
        return isinstance(x, _RealDT)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDT)


class SimDatetime(_RealDT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if CLOCK is None:
            return _RealDT.now(tz)
        ns = CLOCK.read()
        utc = _RealDT(1970, 1, 1, tzinfo=_dt.timezone.utc) + _dt.timedelta(microseconds=ns // 1000)
        if tz is None:
            s = real["localtime"](ns // 10 ** 9)
            return _RealDT(*s[:6], utc.microsecond)
        return utc.astimezone(tz)

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class _DMeta(type(_RealDate)):
    def __instancecheck__(cls, x):
        return isinstance(x, _RealDate)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDate)


class SimDate(_RealDate, metaclass=_DMeta):
    @classmethod
    def today(cls):
        return SimDatetime.now().date()


def install():
    """without an active clock everything passes through"""
    _t.time, _t.time_ns, _t.localtime, _t.gmtime, _t.strftime = _time, _time_ns, _localtime, _gmtime, _strftime
    _t.monotonic, _t.monotonic_ns, _t.ctime, _t.asctime, _t.sleep = _monotonic, _monotonic_ns, _ctime, _asctime, _sleep
    _t.perf_counter = lambda: _monotonic() if CLOCK is not None else real["perf_counter"]()
    _dt.datetime = SimDatetime
    _dt.date = SimDate


class active:
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global CLOCK
        CLOCK = self.clock
        return self.clock

    def __exit__(self, *a):
        global CLOCK
        CLOCK = None
