"""Simulated network: sockets, name resolution and waiting for sockets.

A datagram or stream given to a socket reaches a peer object chosen by its
destination address; what the peer sends back arrives after a simulated delay,
in simulated time.  Closed sockets leave what was still on its way to their port,
so a later socket with the same port can receive it."""
import errno
import os
import selectors as _selectors
import select as _select
import socket as _socket

from . import clock

NET = None
RealSocket = _socket.socket
real_getaddrinfo = _socket.getaddrinfo
RealSelector = _selectors.DefaultSelector


def oserr(e):
    e = getattr(errno, e) if isinstance(e, str) else e
    return OSError(e, os.strerror(e))


class Net:
    """peers: {(ip, port): peer}; a peer has datagram(net, sock, data, dest) and, for
    streams, connect(net, sock, dest) and stream(net, sock, data)"""

    def __init__(self, clk, peers=None, default=None, hosts=None):
        self.clk = clk
        self.peers = peers or {}
        self.default = default          # peer of every other address, None: nobody there
        self.hosts = hosts              # callable(name, nth) -> list of ips, or raises
        self.sent = []                  # every send attempt
        self.socks = []
        self.left = {}                  # local port -> [(time, data, source)]
        self.ports = 40000
        self.nports = 4
        self.nsock = 0
        self.on_send = None             # callable(net, sock, data, dest): may raise OSError
        self.on_socket = None           # callable(net, family, type): may raise
        self.resolved = {}
        self.last_host = {}             # thread -> host it asked for last
        self.log = []

    def now(self):
        return self.clk.mono

    def ip_of(self, name):
        try:
            _socket.inet_pton(_socket.AF_INET, name)
            return [name]
        except OSError:
            pass
        try:
            _socket.inet_pton(_socket.AF_INET6, name)
            return [name]
        except OSError:
            pass
        n = self.resolved.get(name, 0)
        self.resolved[name] = n + 1
        self.log.append(("resolve", name))
        if self.hosts is None:
            raise _socket.gaierror(_socket.EAI_NONAME, "Name or service not known")
        return self.hosts(name, n)

    def peer(self, dest):
        return self.peers.get((dest[0], dest[1]), self.default)

    def open_sockets(self):
        return [s for s in self.socks if not s.closed]


class SimSocket:
    def __new__(cls, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        if NET is None or fileno is not None or family not in (-1, _socket.AF_INET, _socket.AF_INET6):
            return RealSocket(family, type, proto, fileno)
        return object.__new__(cls)

    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self.net = NET
        self.closed = True
        self.family = _socket.AF_INET if family == -1 else family
        self.type = type
        self.proto = proto
        if self.net.on_socket is not None:
            self.net.on_socket(self.net, self.family, type)
        self.closed = False
        self.timeout = None
        self.inbox = []                 # (time, data or None for end of stream, source)
        self.peer_addr = None
        self.connected_at = None
        self.err = 0
        self.net.nsock += 1
        self.n = self.net.nsock
        self.port = self.net.ports + self.n % self.net.nports
        self.net.socks.append(self)
        if type == _socket.SOCK_DGRAM:
            self.inbox += self.net.left.pop(self.port, [])

    # ------------------------------------------------------------ plumbing
    def fileno(self):
        return -1 if self.closed else 100000 + self.n

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def getblocking(self):
        return self.timeout != 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == _socket.SO_ERROR:
            e, self.err = self.err, 0
            return e
        return 0

    def bind(self, a):
        pass

    def shutdown(self, how):
        pass

    def getsockname(self):
        ip = "127.0.0.1" if self.family == _socket.AF_INET else "::1"
        return (ip, self.port) if self.family == _socket.AF_INET else (ip, self.port, 0, 0)

    def getpeername(self):
        if self.peer_addr is None:
            raise oserr("ENOTCONN")
        return self.peer_addr

    def close(self):
        if not self.closed:
            self.closed = True
            late = [x for x in self.inbox if x[0] > self.net.now() and x[1] is not None]
            if self.type == _socket.SOCK_DGRAM and late:
                self.net.left.setdefault(self.port, []).extend(late)

    def detach(self):
        self.close()
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _check(self):
        if self.closed:
            raise oserr("EBADF")

    # ------------------------------------------------------------- sending
    def _resolve(self, dest):
        want = self.family
        ips = self.net.ip_of(dest[0])
        if not 0 <= dest[1] <= 65535:
            raise OverflowError("sendto(): port must be 0-65535.")
        ips = [i for i in ips if (":" in i) == (want == _socket.AF_INET6)]
        if not ips:
            raise _socket.gaierror(_socket.EAI_ADDRFAMILY, "Address family for hostname not supported")
        return (ips[0], dest[1])

    def sendto(self, data, *a):
        self._check()
        return self._dgram(bytes(data), a[-1])

    def _dgram(self, data, dest):
        rec = {"sock": self.n, "data": data, "host": dest[0], "port": dest[1], "t": self.net.now(), "ok": False, "who": thread_id()}
        self.net.sent.append(rec)
        ip = self._resolve(dest)
        rec["ip"] = ip[0]
        if self.net.on_send is not None:
            self.net.on_send(self.net, self, data, rec)
        rec["ok"] = True
        p = self.net.peer(ip)
        if p is not None:
            p.datagram(self.net, self, data, ip)
        return len(data)

    def send(self, data, *a):
        self._check()
        if self.peer_addr is None:
            raise oserr("ENOTCONN")
        if self.type == _socket.SOCK_DGRAM:
            return self._dgram(bytes(data), self.peer_addr)
        return self.net.peer(self.peer_addr).stream(self.net, self, bytes(data))

    def sendall(self, data, *a):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    # ----------------------------------------------------------- connecting
    def connect_ex(self, dest):
        self._check()
        try:
            ip = self._resolve(dest)
        except OSError as e:
            return e.errno or errno.EHOSTUNREACH
        self.peer_addr = ip
        if self.type == _socket.SOCK_DGRAM:
            return 0
        p = self.net.peer(ip)
        if p is None:
            self.connected_at = None
            return errno.EINPROGRESS
        return p.connect(self.net, self, ip)

    def connect(self, dest):
        if self.type == _socket.SOCK_DGRAM:
            self._check()
            self.peer_addr = self._resolve(dest)
            return
        e = self.connect_ex(dest)
        if e == errno.EINPROGRESS and self.timeout != 0.0:
            if not wait_for([(self, 2)], self.timeout):
                raise TimeoutError("timed out")
            e = self.getsockopt(_socket.SOL_SOCKET, _socket.SO_ERROR)
        if e:
            raise oserr(e)

    # ------------------------------------------------------------ receiving
    def _ready(self):
        now = self.net.now()
        return [x for x in self.inbox if x[0] <= now]

    def deliver(self, delay, data, source):
        """delay in nanoseconds from now"""
        self.inbox.append((self.net.now() + delay, data, source))

    def _take(self):
        while True:
            self._check()
            r = self._ready()
            if r:
                m = min(r, key=lambda x: x[0])
                self.inbox.remove(m)
                return m
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            if not wait_for([(self, 1)], self.timeout):
                raise TimeoutError("timed out")

    def recvfrom(self, n, *a):
        t, data, src = self._take()
        self.net.log.append(("recv", self.n, len(data)))
        return data[:n], (src if self.family == _socket.AF_INET else (src[0], src[1], 0, 0))

    def recv(self, n, *a):
        t, data, src = self._take()
        if self.type == _socket.SOCK_DGRAM:
            return data[:n]
        if isinstance(data, OSError):
            raise data
        if data is None:
            self.inbox.append((t, None, src))
            return b""
        if len(data) > n:
            self.inbox.append((t, data[n:], src))
        return data[:n]

    # when each event of interest becomes true; None: never by itself
    def when(self, events):
        ts = []
        if events & 1 and self.inbox:
            ts.append(min(x[0] for x in self.inbox))
        if events & 2:
            if self.type == _socket.SOCK_DGRAM or self.peer_addr is None:
                ts.append(self.net.now())
            elif self.connected_at is not None:
                ts.append(self.connected_at)
        return min(ts) if ts else None


def thread_id():
    from . import threads
    s = threads.SCHED
    me = s.me() if s is not None else None
    return me.n if me is not None else -1


class Stuck(Exception):
    pass


def wait_for(pairs, timeout):
    """waits in simulated time; list of ready sockets"""
    net = pairs[0][0].net
    end = None if timeout is None else net.now() + int(timeout * 1e9)
    while True:
        ready = [s for s, ev in pairs if s.when(ev) is not None and s.when(ev) <= net.now()]
        if ready:
            return ready
        ts = [s.when(ev) for s, ev in pairs if s.when(ev) is not None]
        if end is not None:
            if net.now() >= end:
                return []
            ts.append(end)
        if not ts:
            raise Stuck("waits for ever for a socket")
        net.clk.wait_until(min(ts))


class SimSelector:
    def __new__(cls):
        if NET is None:
            return RealSelector()
        return object.__new__(cls)

    def __init__(self):
        self.keys = {}

    def register(self, f, events, data=None):
        k = _selectors.SelectorKey(f, f.fileno(), events, data)
        self.keys[f] = k
        return k

    def unregister(self, f):
        return self.keys.pop(f)

    def modify(self, f, events, data=None):
        return self.register(f, events, data)

    def get_map(self):
        return self.keys

    def select(self, timeout=None):
        r = wait_for([(f, k.events) for f, k in self.keys.items()], timeout)
        return [(self.keys[f], self.keys[f].events) for f in r]

    def close(self):
        self.keys = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _sim_select(r, w, x, timeout=None):
    if NET is None or not any(isinstance(s, SimSocket) for s in list(r) + list(w)):
        return real_select(r, w, x, timeout)
    ready = wait_for([(s, 1) for s in r] + [(s, 2) for s in w], timeout)
    return [s for s in r if s in ready], [s for s in w if s in ready], []


real_select = _select.select


def _getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if NET is None:
        return real_getaddrinfo(host, port, family, type, proto, flags)
    if isinstance(host, bytes):
        host = host.decode()
    NET.last_host[thread_id()] = host
    if host:
        host.encode("idna")
    out = []
    for ip in NET.ip_of(host):
        fam = _socket.AF_INET6 if ":" in ip else _socket.AF_INET
        if family in (0, fam):
            sa = (ip, int(port)) if fam == _socket.AF_INET else (ip, int(port), 0, 0)
            out.append((fam, type or _socket.SOCK_DGRAM, 17 if type != _socket.SOCK_STREAM else 6, "", sa))
    if not out:
        raise _socket.gaierror(_socket.EAI_ADDRFAMILY, "Address family for hostname not supported")
    return out


class active:
    def __init__(self, net):
        self.net = net

    def __enter__(self):
        global NET
        NET = self.net
        return self.net

    def __exit__(self, *a):
        global NET
        NET = None


def install():
    """everything passes through to the real network while no Net is active"""
    import ssl  # noqa: subclasses the real socket
    _socket.socket = SimSocket
    _socket.getaddrinfo = _getaddrinfo
    _selectors.DefaultSelector = SimSelector
    _select.select = _sim_select
