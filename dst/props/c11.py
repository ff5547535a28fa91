"""C11: DNS lookups never break, stall or falsify parsing whatever the network does."""
import json
import os
import random
import re
import warnings

from .. import clock, core, dnssim, net, scenario, threads

ID = "C11"
RULE = ("seed -> 1-3 parsers (each in its own simulated thread when several), each with 1-4 groups doing forward or reverse lookups with their own servers, timeout, record type and field, "
        "1-6 names each, and for every lookup and server a script of what it does with each query; non-trivial: at least one query reached a server; distinct by hash of all network and clock events")
REAL = ["whole ttp package", "dnspython (resolver, UDP and TCP transport, message parsing)", "real threads"]
STUB = ["sockets, selectors (simulated network)", "clocks and sleep (simulated)", "name servers", "/etc/resolv.conf", "random message ids (seeded)", "thread scheduler (several parsers)"]
ASSUMPTIONS = ["no forged packet carries the right source, id and question at once", "the wall clock is not set back by more than 0.9 s while a lookup waits (dnspython measures with it)"]
QUICK, THOROUGH = 2000, 80000
SERVERS = ["10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.1.1", "2001:db8::53"]
NEG = ["nx", "empty", "othername", "yx"]
FAIL = ["lost", "late", "cut", "garbage", "wrongid", "wrongq", "spoof", "spoofport", "servfail", "refused", "notimp", "formerr", "loop", "tc", "neterr", "nosocket"]
NOISE = ["wrongid", "wrongq", "spoof", "spoofport", "garbage", "cut"]
ODD = ["a..b", "x" * 64 + ".example.net", ("y" * 60 + ".") * 5 + "net", "caf\u00e9.example.net", "\u4e2d.example.net", "*", "-", ".", "a.b.", "HOST7.Example.NET", "under_score.example.net", "10.1.1.1", "\\", "\\256.x", "a\\.b.net",
       "\u00df\u0301.net", "xn--zzzzzz.net", "\ud83d.net", "\u200d.net", "a@b.c", "\x07.net", "999.1.1.1", "1.2.3", "::g", "fe80::1%eth0", "1.2.3.4.5", "::ffff:10.1.2.3", "0", "1.1.1.01"]


def behaviour(r, timeout):
    """list of queries; each is a list of packets"""
    def ok():
        pk = [["ok", r.choice([0.1, 5, 40, 90])]]
        if r.random() < 0.2:
            pk = [["dup", 5]]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            pk.insert(0, [r.choice(NOISE), 0.05])
        return pk

    def bad():
        k = r.choice(FAIL)
        d = r.choice([0.1, 20]) if k != "late" else timeout * 1000 * r.choice([1.001, 1.2, 2, 3.5])
        return [[k, d]]
    kind = r.choice(["ok", "ok", "fail", "fail", "neg", "mixed"])
    if kind == "ok":
        return {"kind": kind, "q": [ok()], "tcp": ["ok"]}
    if kind == "fail":
        q = [bad() for _ in range(r.choice([1, 1, 2, 3]))]
        return {"kind": kind, "q": q, "tcp": [r.choice(["refuse", "silent", "close", "garbage", "reset", "mute"])]}
    if kind == "neg":
        return {"kind": kind, "q": [[[r.choice(NEG), 10]]], "tcp": ["ok"]}
    return {"kind": kind, "q": [r.choice([ok, bad, lambda: [[r.choice(["late", "ok"]), timeout * 1000 * 0.999]], lambda: [["tc", 3]]])() for _ in range(r.choice([1, 2, 3, 4]))],
            "tcp": [r.choice(["ok", "drip", "close", "silent", "mute", "ok"]) for _ in range(2)]}


def gen(seed, tier):
    r = random.Random(seed)
    n = r.choice([1, 1, 1, 2, 2, 3])
    parsers = []
    uid = 0
    for a in range(n):
        groups = []
        for g in range(r.choice([1, 2, 2, 3, 4])):
            fn = r.choice(["dns", "dns", "rdns"])
            o = {"fn": fn, "record": r.choice([None, None, "A", "AAAA", "MX", "TXT", "NS", "SRV", "CNAME"]) if fn == "dns" else None, "timeout": r.choice([None, 1, 2, 0.5, 5]),
                 "servers": None if r.random() < 0.25 else r.sample(SERVERS, r.choice([1, 1, 2, 2, 3])), "add": r.choice([None, None, "fld{}".format(g)]), "form": r.choice(["str", "spaces", "list"])}
            srv = o["servers"] or dnssim.SYSTEM
            names = []
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                uid += 1
                x = r.random()
                if fn == "dns":
                    nm = r.choice(["host{}.example.net", "www{}.corp.example.org", "host{}.example.net.", "alias{}.example.net", "h{}", "nx{}.example.net", "nodata{}.example.net"]).format(uid if r.random() < 0.8 else 1)
                else:
                    nm = r.choice(["10.20.{}.{}".format(uid % 7, uid % 250), "2001:db8:0:{:x}::1".format(uid), "192.0.2.1"])
                if x < 0.12:
                    nm = r.choice(ODD)
                healthy = r.random() < 0.35
                names.append([nm, {s: {"kind": "ok", "q": [[["ok", r.choice([1, 30])]]], "tcp": ["ok"]} if healthy else behaviour(r, o["timeout"] or 1) for s in srv}])
            o["names"] = names
            groups.append(o)
        parsers.append({"groups": groups, "plain": r.randrange(0, 3), "order": r.randrange(1 << 30)})
    return {"parsers": parsers, "steps": r.choice(["still", "us", "us", "fwd", "back"]), "step_seed": r.randrange(1 << 30), "ports": r.choice([1, 4, 1000]), "id_seed": r.randrange(1 << 30),
            "gaps": r.choice([20, 100, 400, 2000]), "pcall": r.choice([0, 0.05, 0.3]), "hot": [r.randrange(1 << 20), r.choice([3, 8, 20, 50])] if r.random() < 0.4 else None, "sched_seed": r.randrange(1 << 30), "sched": None}


def template(p):
    t = ""
    for i, g in enumerate(p["groups"]):
        args = []
        if g["record"]:
            args.append('record="{}"'.format(g["record"]))
        if g["timeout"]:
            args.append("timeout={}".format(g["timeout"]))
        if g["servers"]:
            s = g["servers"]
            args.append("servers={}".format(repr(s) if g["form"] == "list" else '"{}"'.format((", " if g["form"] == "spaces" else ",").join(s))))
        if g["add"]:
            args.append('add_field="{}"'.format(g["add"]))
        t += '<group name="g{}*">\nL{} {{{{ id }}}} {{{{ name | tick({}) | {}{} | tock({}) }}}} end\n</group>\n'.format(i, "abcdef"[i], i, g["fn"], "({})".format(", ".join(args)) if args else "", i)
    return t + '<group name="plain*">\nplain {{ id }}\n</group>\n'


def text(p):
    lines = []
    for i, g in enumerate(p["groups"]):
        lines += [(i, "L{} {}-{} {} end".format("abcdef"[i], i, k, nm)) for k, (nm, _) in enumerate(g["names"])]
    lines += [(99, "plain p{}".format(k)) for k in range(p["plain"])]
    r = random.Random(p["order"])
    # shuffled, the order within a group kept
    keys = [k for k, _ in lines]
    r.shuffle(keys)
    by = {}
    for k, l in lines:
        by.setdefault(k, []).append(l)
    return "\n" + "\n".join(by[k].pop(0) for k in keys) + "\n"


class World:
    """knows which lookup each thread is in, plays the servers' scripts and notes what they really answered"""

    def __init__(self, case):
        self.case = case
        self.cur = {}               # thread -> lookup record
        self.done = []
        self.fired = {}
        self.bad_query = False
        self.stray = []
        self.jumps = []             # (monotonic time, by how much the wall clock jumped)
        self.nt = None

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def tick(self, a, g, name):
        # one lookup after the other within a group
        me = net.thread_id()
        k = sum(1 for d in self.done if d["p"] == a and d["g"] == g)
        self.cur[me] = {"p": a, "g": g, "k": k, "name": name, "t0": self.nt.now(), "n": {}, "tcpn": {}, "allowed": [], "neg": [], "asked": [], "jumped": False}

    def tock(self, a, g):
        me = net.thread_id()
        rec = self.cur.pop(me)
        rec["t1"] = self.nt.now()
        self.done.append(rec)

    def lookup(self):
        return self.cur.get(net.thread_id())

    def script(self, ip):
        l = self.lookup()
        if l is None:
            return None
        names = self.case["parsers"][l["p"]]["groups"][l["g"]]["names"]
        return names[l["k"]][1].get(ip) if l["k"] < len(names) else None

    def plan(self, ip, q):
        l, s = self.lookup(), self.script(ip)
        if s is None:
            return []
        n = l["n"][ip] - 1
        return [p for p in s["q"][min(n, len(s["q"]) - 1)] if p[0] not in ("neterr", "nosocket")]

    def tcp(self, ip):
        l, s = self.lookup(), self.script(ip)
        if s is None:
            return "silent"
        n = l["tcpn"][ip] = l["tcpn"].get(ip, 0) + 1
        return s["tcp"][min(n - 1, len(s["tcp"]) - 1)]

    def asked(self, ip, data):
        l = self.lookup()
        if l is None:
            self.stray.append(ip)
        elif ip not in l["asked"]:
            l["asked"].append(ip)

    def send(self, nt, sock, data, rec):
        l = self.lookup()
        ip = rec["ip"]
        if l is None:
            return
        n = l["n"][ip] = l["n"].get(ip, 0) + 1
        s = self.script(ip)
        if s:
            for k, _ in s["q"][min(n - 1, len(s["q"]) - 1)]:
                if k == "neterr":
                    self.count("neterr")
                    raise net.oserr(["ENETUNREACH", "EPERM", "EHOSTUNREACH"][n % 3])
                if k == "nosocket":
                    self.count("nosocket")
                    raise net.oserr("ENOBUFS")

    def answered(self, ip, q, recs):
        l = self.lookup()
        if l is not None:
            l["allowed"].append([ip, list(recs)])

    def negative(self, ip, q):
        l = self.lookup()
        if l is not None:
            l["neg"].append(ip)


def live(p, a, w):
    T = scenario.import_ttp().ttp
    obj = T(log_level="CRITICAL")

    def tick(data, g):
        w.tick(a, g, data)
        return data, None

    def tock(data, g):
        w.tock(a, g)
        return data, None
    obj.add_function(tick, scope="match", name="tick")
    obj.add_function(tock, scope="match", name="tock")
    obj.add_template(template(p))
    obj.add_input(text(p))

    def go():
        obj.parse(one=True)
        return obj.result()
    try:
        return ["ok", go()]
    except Exception as e:
        return ["raised", "{}: {}".format(type(e).__name__, e)]


def simulate(case, d):
    os.chdir(d)
    warnings.simplefilter("ignore")
    dnssim.seed(case["id_seed"])
    r = random.Random(case["step_seed"])
    w = World(case)
    def step(c):
        k = case["steps"]
        l = w.lookup()
        if k in ("fwd", "back") and l is not None and not l["jumped"] and r.random() < 0.15:
            l["jumped"] = True
            w.count("clock_jump_" + k)
            d = r.choice([300, 1000, 10 ** 4, 10 ** 8]) * 10 ** 6 if k == "fwd" else -r.randrange(0, 900) * 10 ** 6
            c.ns += d
            w.jumps.append((c.mono, d))
        return 0 if k == "still" else r.randrange(0, 2000)
    ck = clock.Clock(1700000000 * 10 ** 9 + r.randrange(10 ** 9), step)
    ips = sorted({s for p in case["parsers"] for g in p["groups"] for s in (g["servers"] or dnssim.SYSTEM)} | set(dnssim.SYSTEM) | set(SERVERS))
    nt = net.Net(ck, peers={(s, 53): dnssim.Server(s, w) for s in ips})
    nt.nports = case["ports"]
    nt.on_send = w.send
    w.nt = nt
    outs = [None] * len(case["parsers"])
    res = {"violation": None, "switches": 0, "choices": None, "log": ""}
    ch = core.Choices(case["sched_seed"], case["sched"])
    with clock.active(ck), net.active(nt):
        if len(outs) == 1:
            outs[0] = live(case["parsers"][0], 0, w)
        else:
            sch = threads.Scheduler(ch, case["gaps"], case["pcall"], hot=case.get("hot"))

            def body(i):
                def f():
                    outs[i] = live(case["parsers"][i], i, w)
                return f
            try:
                sch.run([body(i) for i in range(len(outs))])
            except core.Violation as v:
                res["violation"] = [v.kind, v.detail]
            for t in sch.threads:
                if t.error is not None:
                    raise core.HarnessError("thread {}: {!r}".format(t.n, t.error))
            res.update(switches=sch.switches, choices=ch.taken, log=sch.loghash())
    res.update(outs=outs, done=w.done, open=[w.cur[k] for k in sorted(w.cur)], fired=w.fired, jumps=w.jumps, stray=w.stray, sent=[(s["host"], s["port"], s["t"], s["who"], s["ok"]) for s in nt.sent],
               now=ck.mono / 1e9 - 1000, sockets=len(nt.open_sockets()), nlog=len(nt.log))
    return res


def run(case, env):
    out = core.isolated(simulate, case, env.scratch("run"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "the run does not end")
    if out[0] != "ok":
        return env.harness("run: {}".format(out))
    res = out[1]
    info = {"log": core.digest(repr(res["sent"]), res["log"], repr([(d["t0"], d["t1"]) for d in res["done"]])), "fired": res["fired"], "steps": len(res["sent"]), "now": res["now"], "choices": res["choices"],
            "extra": {"queries": len(res["sent"]), "lookups": len(res["done"]), "switches": res["switches"]}}
    env.add(info, nontrivial=bool(res["sent"]))
    bad = judge(case, res, info["extra"])
    env.add(info, nontrivial=bool(res["sent"]))
    return env.violation(*bad) if bad else env.ok()


def plain_name(nm, fn):
    if fn == "rdns":
        return re.fullmatch(r"10\.20\.\d+\.\d+|192\.0\.2\.1|2001:db8:0:[0-9a-f]+::1", nm)
    return re.fullmatch(r"(host|www|alias)\d+(\.[a-z]+)+\.?", nm)


def judge(case, res, extra):
    if res["violation"]:
        return res["violation"]
    must_n = found = 0
    for a, (p, o) in enumerate(zip(case["parsers"], res["outs"])):
        if o[0] != "ok":
            return "parse-raised", "parser {}: {}".format(a, core.short(o[1], 500))
        r = o[1][0][0] if o[1] and o[1][0] else {}
        got = {k: v for k, v in r.items()} if isinstance(r, dict) else None
        if got is None:
            return "other-matches-changed", core.short(str(o[1]), 400)
        want_plain = [{"id": "p{}".format(k)} for k in range(p["plain"])]
        if got.pop("plain", []) != want_plain:
            return "other-matches-changed", "plain lines gave {}".format(core.short(str(o[1]), 400))
        for g, grp in enumerate(p["groups"]):
            items = got.pop("g{}".format(g), [])
            if len(items) != len(grp["names"]):
                return "match-lost", "group {} has {} items for {} lines".format(g, len(items), len(grp["names"]))
            servers = grp["servers"] or dnssim.SYSTEM
            timeout = grp["timeout"] or 1
            for k, ((nm, beh), it) in enumerate(zip(grp["names"], items)):
                it = dict(it)
                where = "parser {} group {} {}({!r}, {})".format(a, g, grp["fn"], core.short(nm, 60), {x: grp[x] for x in ("record", "timeout", "servers", "add")})
                rec = next((d for d in res["done"] if (d["p"], d["g"], d["k"]) == (a, g, k)), None)
                if rec is None:
                    return "no-lookup", where
                if it.pop("id", None) != "{}-{}".format(g, k):
                    return "other-matches-changed", where
                took = (rec["t1"] - rec["t0"]) / 1e9
                jumps = [j for t, j in res["jumps"] if rec["t0"] <= t <= rec["t1"]]
                if took > timeout * len(servers) + 2.5 + sum(-j for j in jumps if j < 0) / 1e9:
                    return "lookup-too-long", "{} took {:.2f} s of simulated time, {} servers".format(where, took, len(servers))
                wrong = [s for s in rec["asked"] if s not in servers]
                if wrong:
                    return "wrong-server-asked", "{} asked {}".format(where, wrong)
                name = it.pop("name", None)
                if grp["add"]:
                    val = it.pop(grp["add"], None)
                    if name != nm:
                        return "match-changed", "{} gave {!r}".format(where, name)
                    answered = val is not None
                else:
                    val = name
                    answered = name != nm
                if it:
                    return "extra-fields", "{}: {}".format(where, it)
                if answered:
                    found += 1
                    good = False
                    for ip, recs in rec["allowed"]:
                        if grp["fn"] == "dns":
                            good |= isinstance(val, list) and val in (sorted(recs), sorted(recs, key=str.lower))
                        else:
                            good |= isinstance(val, str) and val in [x.rstrip(".") for x in recs]
                    if not good:
                        return "false-answer", "{} gave {!r}; the servers answered {}".format(where, val, rec["allowed"])
                else:
                    kinds = {s: beh[s]["kind"] for s in servers}
                    healthy = [s for s in servers if kinds[s] == "ok" and s in positive(servers, nm, grp)]
                    others = [s for s in servers if s not in healthy]
                    must = plain_name(nm, grp["fn"]) and healthy and not any(kinds[s] in ("neg", "mixed") or kinds[s] == "ok" for s in others) and not jumps
                    if must:
                        return "answer-not-used", "{} stayed unchanged though {} answer and {} only fail; asked {}".format(where, healthy, others, rec["asked"])
                must_n += 1
        if got:
            return "extra-fields", core.short(str(got), 300)
    if res["stray"]:
        return "query-outside-lookup", str(res["stray"][:5])
    if res["sockets"]:
        return "socket-left-open", "{} sockets open at the end".format(res["sockets"])
    extra["answered"] = found
    return None


def positive(servers, nm, grp):
    """servers whose view holds records for the name itself"""
    import dns.name
    import dns.reversename
    if grp["fn"] == "rdns":
        try:
            q = dns.reversename.from_address(nm).to_text()
        except Exception:
            return []
        rt = "PTR"
    else:
        q = nm.rstrip(".") + "."
        rt = grp["record"] or "A"
    out = []
    for s in servers:
        z = dnssim.zone(s, q, rt)
        if z is not None and z[1]:
            out.append(s)
    return out


def shrink(case):
    if case.get("hot"):
        yield dict(case, hot=None)
    ps = case["parsers"]
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(case, parsers=ps[:i] + ps[i + 1:])
    for i, p in enumerate(ps):
        def put(**kw):
            return dict(case, parsers=ps[:i] + [dict(p, **kw)] + ps[i + 1:])
        gs = p["groups"]
        for j, g in enumerate(gs):
            if len(gs) > 1:
                yield put(groups=gs[:j] + gs[j + 1:])
            for k in range(len(g["names"])):
                if len(g["names"]) > 1:
                    yield put(groups=gs[:j] + [dict(g, names=g["names"][:k] + g["names"][k + 1:])] + gs[j + 1:])
            for k, (nm, beh) in enumerate(g["names"]):
                for s in sorted(beh):
                    if len(beh[s]["q"]) > 1:
                        b = dict(beh)
                        b[s] = dict(beh[s], q=beh[s]["q"][:-1])
                        yield put(groups=gs[:j] + [dict(g, names=g["names"][:k] + [[nm, b]] + g["names"][k + 1:])] + gs[j + 1:])
            if g["form"] != "str":
                yield put(groups=gs[:j] + [dict(g, form="str")] + gs[j + 1:])
        if p["plain"]:
            yield put(plain=0)
    if case["steps"] != "still":
        yield dict(case, steps="still")


def setup():
    scenario.warm_libs()
    threads.install()
    clock.install()
    net.install()
    dnssim.install()
    scenario.import_ttp()
