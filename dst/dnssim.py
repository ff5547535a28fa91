"""Simulated name servers under the real dnspython: each has its own view of the
world and answers every query the way the run's script says."""
import errno
import hashlib
import io
import random
import re
import struct

import dns.entropy
import dns.flags
import dns.message
import dns.name
import dns.rcode
import dns.rdatatype
import dns.resolver
import dns.rrset

from . import net

MS = 10 ** 6
SYSTEM = ["10.9.9.9", "10.9.9.8"]
_read = dns.resolver.Resolver.read_resolv_conf


def _read_resolv_conf(self, f):
    if f == "/etc/resolv.conf":
        f = io.StringIO("".join("nameserver {}\n".format(s) for s in SYSTEM) + "search lab.test\n")
    return _read(self, f)


def install():
    dns.resolver.Resolver.read_resolv_conf = _read_resolv_conf


def seed(n):
    dns.entropy.system_random = random.Random(n)
    random.seed(n)                  # record order of the servers


def h(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:8], 16)


def zone(server, name, rtype):
    """None: no such name; else (cname or None, list of record texts)"""
    n = name.lower().rstrip(".")
    labels = n.split(".")
    if n.endswith(".lab.test"):
        if len(labels) != 3:
            return None
    elif len(labels) < 2:
        return None
    if labels[0].startswith("nx"):
        return None
    if n.endswith((".in-addr.arpa", ".ip6.arpa")):
        if rtype != "PTR" or h(n) % 7 == 0:
            return None
        return None, ["{}{}-{}.{}.example.com.".format("Rr"[h(server, n) % 2], h(server, n) % 10000, k, "a" * (h(n, k) % 5 + 1)) for k in range(1 + h(server, n, "c") % 3)]
    if labels[0].startswith("nodata"):
        return None, []
    cname = "{}{}.example.org.".format(("real", "Real", "WEB-")[h(n) % 3], h(n) % 100) if labels[0].startswith("alias") else None
    key = h(server, n, rtype)
    cnt = 1 + key % 4
    if rtype == "A":
        recs = ["10.{}.{}.{}".format(key % 250, h(n) % 250, (key >> 4) % 200 + 50 - k * 9) for k in range(cnt)]
    elif rtype == "AAAA":
        recs = ["2001:db8:{:x}::{:x}".format(key % 65535 + 1, 40 - k * 7) for k in range(cnt)]
    elif rtype == "MX":
        recs = ["{} {}{}.example.net.".format(50 - k * 10, ("mx", "MX-")[key % 2], key % 1000) for k in range(cnt)]
    elif rtype == "TXT":
        recs = ['"v={} k={}"'.format(key % 1000, 9 - k) for k in range(cnt)]
    elif rtype == "NS":
        recs = ["ns{}-{}.example.net.".format(9 - k, key % 1000) for k in range(cnt)]
    elif rtype == "SRV":
        recs = ["0 {} 5060 sip{}.example.net.".format(9 - k, key % 1000) for k in range(cnt)]
    elif rtype == "CNAME":
        return None, [cname] if cname else []
    else:
        recs = []
    return cname, recs


def texts(wire, q):
    """the records a reply holds as a reader of the wire sees them (compression can change the case of shared suffixes)"""
    rt = q.question[0].rdtype
    return [i.to_text() for rrset in dns.message.from_wire(wire).answer if rrset.rdtype == rt for i in rrset]


class Server:
    """plan(server, nth) -> list of [kind, delay in ms] packets sent for the nth query of the present lookup"""

    def __init__(self, ip, world):
        self.ip = ip
        self.w = world
        self.bufs = {}

    # -------------------------------------------------------------- messages
    def reply(self, q, kind):
        """wire of a reply and the answer it holds when genuine and positive"""
        r = dns.message.make_response(q)
        r.flags |= dns.flags.RA
        qn = q.question[0].name
        rt = dns.rdatatype.to_text(q.question[0].rdtype)
        z = zone(self.ip, qn.to_text(), rt)
        good = None
        if kind in ("servfail", "refused", "notimp", "formerr", "yx", "nx"):
            r.set_rcode({"servfail": 2, "refused": 5, "notimp": 4, "formerr": 1, "yx": 6, "nx": 3}[kind])
        elif kind == "empty":
            pass
        elif kind == "tc":
            r.flags |= dns.flags.TC
        elif kind == "othername":
            r.answer.append(dns.rrset.from_text("other.example.net.", 60, "IN", "A", "203.0.113.66"))
        elif kind == "loop" and rt == "CNAME":
            r.set_rcode(2)
        elif kind == "loop":
            a = dns.name.from_text("loop.example.net.")
            r.answer.append(dns.rrset.from_text(qn, 60, "IN", "CNAME", "loop.example.net."))
            r.answer.append(dns.rrset.from_text(a, 60, "IN", "CNAME", qn.to_text()))
        elif kind == "forged":
            txt = {"A": "203.0.113.66", "AAAA": "2001:db8:bad::66", "MX": "1 bad.example.net.", "TXT": '"bad"', "NS": "bad.example.net.", "SRV": "0 0 1 bad.example.net.",
                   "CNAME": "bad.example.net.", "PTR": "bad.example.net."}.get(rt)
            if txt:
                r.answer.append(dns.rrset.from_text(qn, 60, "IN", rt, txt))
        elif z is None:
            r.set_rcode(3)
        else:
            cname, recs = z
            owner = qn
            if cname and recs:
                r.answer.append(dns.rrset.from_text(qn, 60, "IN", "CNAME", cname))
                owner = dns.name.from_text(cname)
            if recs:
                r.answer.append(dns.rrset.from_text(owner, 60, "IN", rt, *recs))
                good = recs
        return r, good

    def packets(self, data):
        w = self.w
        try:
            q = dns.message.from_wire(data)
            assert q.question
        except Exception:
            w.bad_query = True
            return []
        out = []
        for kind, delay in w.plan(self.ip, q):
            w.count(kind)
            base = {"dup": "ok", "late": "ok", "cut": "ok", "wrongid": "forged", "spoof": "forged", "wrongq": "forged", "garbage": "ok", "spoofport": "forged"}.get(kind, kind)
            if kind == "lost":
                continue
            r, good = self.reply(q, base)
            src = (self.ip, 53)
            if kind == "wrongid":
                r.id = (r.id + 1) & 0xFFFF
            if kind == "wrongq":
                r.question = [dns.rrset.RRset(dns.name.from_text("wrong.example.net."), q.question[0].rdclass, q.question[0].rdtype)]
            if kind == "spoof":
                src = ("192.0.2.99" if ":" not in self.ip else "2001:db8::99", 53)
            if kind == "spoofport":
                src = (self.ip, 5353)
            wire = r.to_wire()
            if kind == "cut":
                wire = wire[:max(5, len(wire) * 2 // 3)]
                good = None
            if kind == "garbage":
                wire = bytes(h(wire, k) % 256 for k in range(h(wire) % 60))
                good = None
            if good:
                w.answered(self.ip, q, texts(wire, q))
            if base == "ok" and kind not in ("cut", "garbage") and not good:
                w.negative(self.ip, q)
            out.append((delay, wire, src))
            if kind == "dup":
                out.append((delay, wire, src))
        return out

    # ------------------------------------------------------------------ udp
    def datagram(self, nt, sock, data, dest):
        self.w.asked(self.ip, data)
        for delay, wire, src in self.packets(data):
            sock.deliver(int(delay * MS), wire, src)

    # ------------------------------------------------------------------ tcp
    def connect(self, nt, sock, dest):
        m = self.w.tcp(self.ip)
        self.w.count("tcp_" + m)
        if m == "refuse":
            sock.err = errno.ECONNREFUSED
            sock.connected_at = nt.now() + 3 * MS
        elif m != "silent":
            sock.connected_at = nt.now() + 3 * MS
        self.bufs[sock.n] = [m, b""]
        return errno.EINPROGRESS

    def stream(self, nt, sock, data):
        if sock.connected_at is None or sock.connected_at > nt.now():
            raise BlockingIOError(errno.EAGAIN, "again")
        if sock.n not in self.bufs:
            raise net.oserr("ENOTCONN")
        m, buf = self.bufs[sock.n]
        n = len(data)
        if m == "drip":
            n = min(n, 7)                   # short writes
        buf += data[:n]
        self.bufs[sock.n][1] = buf
        if len(buf) >= 2 and len(buf) >= 2 + struct.unpack(">H", buf[:2])[0]:
            q = dns.message.from_wire(buf[2:])
            r, good = self.reply(q, "ok")
            wire = r.to_wire()
            wire = struct.pack(">H", len(wire)) + wire
            if m in ("ok", "drip"):
                if good:
                    self.w.answered(self.ip, q, texts(wire[2:], q))
                else:
                    self.w.negative(self.ip, q)
            if m == "ok":
                sock.deliver(3 * MS, wire, dest_of(sock))
            elif m == "drip":
                for i in range(0, len(wire), 9):
                    sock.deliver((3 + i) * MS, wire[i:i + 9], dest_of(sock))
            elif m == "close":
                sock.deliver(3 * MS, wire[:len(wire) // 2], dest_of(sock))
                sock.deliver(5 * MS, None, dest_of(sock))
            elif m == "garbage":
                sock.deliver(3 * MS, struct.pack(">H", 20) + bytes(h(wire, k) % 256 for k in range(20)), dest_of(sock))
            elif m == "tc":
                r.flags |= dns.flags.TC
                r.answer = []
                wire = r.to_wire()
                sock.deliver(3 * MS, struct.pack(">H", len(wire)) + wire, dest_of(sock))
            elif m == "reset":
                sock.deliver(3 * MS, net.oserr("ECONNRESET"), dest_of(sock))
        return n


def dest_of(sock):
    return sock.peer_addr
