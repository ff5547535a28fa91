"""C10: syslog output sends each item once, in order, to every reachable server."""
import gc
import json
import logging
import logging.handlers
import os
import random
import re

from .. import clock, core, net, scenario, threads

ID = "C10"
RULE = ("seed -> 1-3 parsers (each in its own simulated thread when several) with 1-3 syslog outputs next to file outputs, 1-3 rounds of data, a name service, and faults "
        "by place: k-th resolution, socket creation or send of a server, items that have no JSON text, slow sends, clock jumps; non-trivial: at least one datagram was "
        "due; distinct by hash of all sends, resolutions, sleeps and switches")
REAL = ["whole ttp package", "logging and logging.handlers.SysLogHandler", "json", "file outputs", "real threads"]
STUB = ["socket.socket, socket.getaddrinfo (simulated network)", "time.sleep and clocks (simulated)", "thread scheduler (several parsers)"]
ASSUMPTIONS = ["datagrams are judged when handed to the network: what UDP loses later no sender can see", "no two servers of one output are the same"]
QUICK, THOROUGH = 2000, 80000
NAMES = ["log1.example.net", "log2.example.net", "log3", "10.1.0.1", "10.1.0.2", "2001:db8::5", "dual.example.net", "caf\u00e9.example.net", "x" * 70 + ".example.net"]
WORDS = ["uplink", "to core", "caf\u00e9 \u4e2d", "50%s %d %(name)s", "{0} {x}", "q\"q'q", "back\\slash", "\U0001f600", "tab\there", "x" * 2000, "<14>fake", "nul\x00l"]


def gen(seed, tier):
    r = random.Random(seed)
    n = r.choice([1, 1, 1, 2, 2, 3])
    parsers = []
    for a in range(n):
        outs = []
        grp = r.random() < 0.25
        per_template = not grp and r.random() < 0.2
        for i in range(r.choice([1, 1, 2, 3])):
            o = {"servers": r.sample(NAMES, r.choice([1, 1, 2, 3])), "scope": "ifs" if grp else "template",
                 "path": r.choice([None, "ifs", "ifs", "ifs", "vlans", "sys", "sys.clock", "sys.host", "nope"]), "how": r.choice(["python", "python", "attr", "json", "yaml"])}
            for k, v in (("port", r.choice([514, 10514, "5140", 65535])), ("facility", r.choice([0, 1, 13, 23, 77])), ("interval", r.choice([0, 1, 0.5, 20, 1500])), ("iterate", r.random() < 0.5)):
                if r.random() < 0.5:
                    o[k] = v
            o["ret"] = r.choice(["syslog", "syslog", "syslog, file", "file, syslog"])
            o["fmt"] = r.choice(["raw", "raw", "raw", "raw", "json"])
            if o["how"] == "attr":
                o["servers"] = o["servers"][:1]
                o.pop("iterate", None)
            if o["how"] == "yaml" and isinstance(o.get("port"), str):
                o["port"] = int(o["port"])
            if o["scope"] == "ifs" and o["path"] not in (None, "ifs", "nope"):
                o["path"] = "ifs"
            outs.append(o)
        rounds = []
        uid = 0
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            rd = []
            for _ in range(r.choice([1, 1, 2, 3])):
                uid += 10
                empty = r.random() < 0.12
                rd.append({"id": uid, "ifs": [["P{}Gi{}".format(a, uid + k), r.choice(WORDS + [None]), r.random() < 0.12] for k in range(0 if empty else r.randrange(0, 5))],
                           "vlans": ["{}{}".format(a, uid + k) for k in range(0 if empty else r.randrange(0, 3))],
                           "sys": None if empty or r.random() < 0.4 else ["p{}s{}{}".format(a, uid, "EMPTY" * (r.random() < 0.3)), r.choice(["12:00", "x y"])]})
            rounds.append(rd)
        for rd in rounds:
            for d in rd:
                for k in ("ifs", "vlans"):
                    if d[k] and r.random() < 0.2:
                        # the same item once more
                        d[k].insert(r.randrange(len(d[k]) + 1), r.choice(d[k]))
        if per_template:
            for rd in rounds:
                for d in rd[1:]:
                    d["sys"] = None
        if any(o["fmt"] == "json" for o in outs):
            for rd in rounds:
                for d in rd:
                    d["ifs"] = [[x, w, False] for x, w, _ in d["ifs"]]
        parsers.append({"outs": outs, "rounds": rounds, "per_template": per_template, "fresh": r.random() < 0.3})
    faults = []
    used = sorted({s for p in parsers for o in p["outs"] for s in o["servers"]})
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.choice(["send", "send", "resolve", "socket", "slow"])
        s = r.choice(used)
        f = {"kind": k, "server": s, "n": r.choice([0, 0, 1, 2, 3])}
        f["err"] = {"send": r.choice(["ENETUNREACH", "EMSGSIZE", "EPERM", "ENOBUFS", "ECONNREFUSED", "EHOSTDOWN"]), "resolve": r.choice(["noname", "again", "oserror"]),
                    "socket": r.choice(["EMFILE", "ENFILE", "EAFNOSUPPORT", "ENOBUFS", "EACCES"]), "slow": r.choice([1, 50, 5000])}[k]
        if r.random() < 0.25:
            f["to"] = f["n"] + r.choice([1, 2, 50])
        faults.append(f)
    return {"parsers": parsers, "faults": faults, "start": r.randrange(10 ** 9, 2 * 10 ** 9), "steps": r.choice(["still", "us", "jump"]), "step_seed": r.randrange(1 << 30),
            "gaps": r.choice([20, 100, 400, 2000]), "pcall": r.choice([0, 0.05, 0.3]), "hot": [r.randrange(1 << 20), r.choice([3, 8, 20, 50])] if r.random() < 0.4 else None, "sched_seed": r.randrange(1 << 30), "sched": None}


# ------------------------------------------------------------------- template, model
def template(p, syslog=True):
    t = '<template results="per_template">\n' if p["per_template"] else ""
    t += '<macro>\ndef bad(data):\n    return {data} if data.endswith("BAD") else data\n\ndef empty(data):\n    return "" if data.endswith("EMPTY") else data\n</macro>\n'
    go = ['o{}'.format(i) for i, o in enumerate(p["outs"]) if o["scope"] == "ifs"]
    t += '<group name="ifs*"{}>\ninterface {{{{ name | macro("bad") }}}}\n descr {{{{ d | re(".+") }}}}\n</group>\n'.format(' output="{}"'.format(", ".join(go)) if go else "")
    t += '<group name="vlans*">\nvlan {{ vid }}\n</group>\n<group name="sys">\nhost {{ host | macro("empty") }}\n<group name="clock">\ntime is {{ t | ORPHRASE }}\n</group>\n</group>\n'
    for i, o in enumerate(p["outs"]):
        # an unknown returner does nothing
        ret = o["ret"] if syslog else o["ret"].replace("syslog", "nowhere")
        at = 'name="o{}" returner="{}" format="{}" url="out" filename="{}"'.format(i, ret, o["fmt"], "f{}.txt".format(i))
        d = {k: o[k] for k in ("port", "facility", "interval", "iterate") if k in o}
        d["servers"] = o["servers"] if len(o["servers"]) > 1 or i % 2 else o["servers"][0]
        if o["path"]:
            d["path"] = o["path"]
        if o["how"] == "attr":
            d["servers"] = o["servers"][0]
            t += "<output {} {}/>\n".format(at, " ".join('{}="{}"'.format(k, v) for k, v in d.items()))
        elif o["how"] == "python":
            t += '<output {} load="python">\n{}\n</output>\n'.format(at, "\n".join("{}={!r}".format(k, v) for k, v in d.items()))
        elif o["how"] == "json":
            t += '<output {} load="json">\n{}\n</output>\n'.format(at, json.dumps(d))
        else:
            import yaml
            t += '<output {} load="yaml">\n{}\n</output>\n'.format(at, yaml.safe_dump(d, allow_unicode=True))
    return t + ("</template>" if p["per_template"] else "")


def text(d):
    s = "\nbegin {}\n".format(d["id"])
    for n, w, bad in d["ifs"]:
        s += "interface {}{}\n".format(n, "BAD" if bad else "")
        if w is not None:
            s += " descr {}\n".format(w)
    for v in d["vlans"]:
        s += "vlan {}\n".format(v)
    if d["sys"]:
        s += "host {}\ntime is {}\n".format(*d["sys"])
    return s


def parts(d):
    out = {}
    if d["ifs"]:
        out["ifs"] = [dict({"name": {n + "BAD"} if bad else n}, **({"d": w} if w is not None else {})) for n, w, bad in d["ifs"]]
    if d["vlans"]:
        out["vlans"] = [{"vid": v} for v in d["vlans"]]
    if d["sys"]:
        out["sys"] = {"host": "" if d["sys"][0].endswith("EMPTY") else d["sys"][0], "clock": {"t": d["sys"][1]}}
    return out


def jsonable(x):
    try:
        return json.loads(json.dumps(x))
    except TypeError:
        return None


def get(d, path):
    for i in path.split(".") if path else ():
        if not isinstance(d, dict) or i not in d:
            return None
        d = d[i]
    return d


def items(o, feed):
    """JSON values due for one run of the output, None for those that have no JSON text"""
    if o["fmt"] == "json":
        v = jsonable(feed)
        return [("text", v)] if v is not None else []
    out = []
    for d in feed if isinstance(feed, list) else [feed]:
        x = get(d, o["path"])
        if not x:
            continue
        for i in x if isinstance(x, list) and o.get("iterate", True) else [x]:
            j = jsonable(i)
            if j is not None:
                out.append(("item", j))
    return out


def due(p):
    """{output index: items in order}"""
    out = {i: [] for i in range(len(p["outs"]))}
    for rd in p["rounds"]:
        per = []
        raises = False
        for d in rd:
            v = parts(d)
            grp = [o for o in p["outs"] if o["scope"] == "ifs"]
            if grp and "ifs" in v:
                one = {"ifs": v.pop("ifs")}
                for i, o in enumerate(p["outs"]):
                    if o["scope"] == "ifs":
                        out[i] += items(o, one)
                per.append([v, one] if v else [one])
            else:
                per.append(v)
        res = per
        if p["per_template"]:
            res = {}
            for v in per:
                for k, x in v.items():
                    if isinstance(x, list):
                        res.setdefault(k, []).extend(x)
                    else:
                        res[k] = x
        if any(o["scope"] == "ifs" for o in p["outs"]):
            res = "grouped"
        for i, o in enumerate(p["outs"]):
            if o["scope"] == "template":
                if res == "grouped":
                    out[i] = None
                else:
                    out[i] += items(o, res)
    return out


def valid(case):
    for p in case["parsers"]:
        bad = any(b for rd in p["rounds"] for d in rd for _, _, b in d["ifs"])
        for o in p["outs"]:
            if o["fmt"] == "json" and bad:
                return False                    # the formatter itself refuses the data
            if o["scope"] == "template" and any(q["scope"] == "ifs" for q in p["outs"]):
                return False
        if p["per_template"] and sum(1 for d in p["rounds"][0] if d["sys"]) > 1:
            return False
        if p["per_template"] and any(sum(1 for d in rd if d["sys"]) > 1 for rd in p["rounds"]):
            return False
    return True


# ------------------------------------------------------------------------- running
def live(p, name, syslog=True):
    T = scenario.import_ttp().ttp
    out = []
    obj = None
    for rd in p["rounds"]:
        if obj is None or p["fresh"]:
            obj = T(log_level="CRITICAL")
            obj.add_template(template(p, syslog).replace('url="out"', 'url="out{}"'.format(name)))
        else:
            obj.clear_result()
            obj.clear_input()
        for d in rd:
            obj.add_input(text(d))

        def go():
            obj.parse(one=True)
            return obj.result()
        out.append(scenario.outcome(go)[:2])
        f = {}
        base = "out{}".format(name)
        for fn in sorted(os.listdir(base)) if os.path.isdir(base) else ():
            with open(os.path.join(base, fn)) as fo:
                f[fn] = fo.read()
        out.append(f)
    return out


class Hosts:
    def __init__(self, case):
        self.case = case
        self.n = {}
        self.fired = []
        self.last = {}
        self.nsend = {}
        self.nsock = {}

    IPS = {"log1.example.net": ["10.2.0.1"], "log2.example.net": ["10.2.0.2"], "log3": ["10.2.0.3"], "dual.example.net": ["2001:db8::7", "10.2.0.7"], "caf\u00e9.example.net": ["10.2.0.8"]}

    def hit(self, kind, server, n):
        for f in self.case["faults"]:
            if f["kind"] == kind and f["server"] == server and f["n"] <= n < f.get("to", f["n"] + 1):
                return f
        return None

    def resolve(self, name, n):
        who = net.thread_id()
        f = self.hit("resolve", name, n)
        if f or name not in self.IPS:
            self.fired.append(("resolve", who, name))
            e = f["err"] if f else "noname"
            if e == "oserror":
                raise OSError(5, "Input/output error")
            raise net._socket.gaierror(net._socket.EAI_NONAME if e == "noname" else net._socket.EAI_AGAIN, e)
        return self.IPS[name]

    def server_of(self, rec):
        h = rec["host"]
        for k, v in self.IPS.items():
            if h in v:
                return k
        return h

    def on_socket(self, nt, family, type):
        who = net.thread_id()
        s = nt.last_host.get(who)
        n = self.nsock[s] = self.nsock.get(s, -1) + 1
        f = self.hit("socket", s, n)
        if f:
            self.fired.append(("socket", who, s))
            raise net.oserr(f["err"])

    def on_send(self, nt, sock, data, rec):
        s = self.server_of(rec)
        n = self.nsend[s] = self.nsend.get(s, -1) + 1
        f = self.hit("slow", s, n)
        if f:
            self.fired.append(("slow", rec["who"], s))
            nt.clk.advance(f["err"] * 10 ** 6)
        f = self.hit("send", s, n)
        if f:
            self.fired.append(("send", rec["who"], s))
            raise net.oserr(f["err"])


def handlers():
    n = len(logging.getLogger().handlers)
    for lg in logging.Logger.manager.loggerDict.values():
        n += len(getattr(lg, "handlers", ()))
    return n


def simulate(case, d):
    os.chdir(d)
    r = random.Random(case["step_seed"])
    step = {"still": None, "us": lambda c: r.randrange(0, 2000), "jump": lambda c: r.choice([1, -1]) * r.randrange(0, 86400 * 10 ** 9) if r.random() < 0.5 else 0}[case["steps"]]
    ck = clock.Clock(case["start"] * 10 ** 9, step)
    h = Hosts(case)
    nt = net.Net(ck, hosts=h.resolve)
    nt.on_socket = h.on_socket
    nt.on_send = h.on_send
    before = handlers()
    outs = [None] * len(case["parsers"])
    ch = core.Choices(case["sched_seed"], case["sched"])
    res = {"violation": None, "switches": 0, "choices": None, "log": "", "lines": 0}
    with clock.active(ck), net.active(nt):
        if len(case["parsers"]) == 1:
            outs[0] = live(case["parsers"][0], "0")
        else:
            sch = threads.Scheduler(ch, case["gaps"], case["pcall"], hot=case.get("hot"))

            def body(i):
                def f():
                    outs[i] = live(case["parsers"][i], str(i))
                return f
            try:
                sch.run([body(i) for i in range(len(outs))])
            except core.Violation as v:
                res["violation"] = [v.kind, v.detail]
            for t in sch.threads:
                if t.error is not None:
                    raise core.HarnessError("thread {}: {!r}".format(t.n, t.error))
            res.update(switches=sch.switches, choices=ch.taken, log=sch.loghash())
    gc.collect()
    live_h = sum(1 for o in gc.get_objects() if isinstance(o, logging.handlers.SysLogHandler))
    for s in nt.sent:
        s["server"] = h.server_of(s)
    # a host that cannot even be written as a name never reaches the resolver
    res.update(outs=outs, sent=nt.sent, fired=h.fired, slept=len(ck.slept), leftover=handlers() - before, sockets=len(nt.open_sockets()), nsock=nt.nsock, live=live_h, now=ck.mono / 1e9 - 1000,
               rlog=nt.log)
    return res


def plain(case, d):
    os.chdir(d)
    return [live(p, str(i), syslog=False) for i, p in enumerate(case["parsers"])]


def run(case, env):
    if not valid(case):
        return env.skip("not defined")
    want = [due(p) for p in case["parsers"]]
    ref = core.isolated(plain, case, env.scratch("run"), timeout=env.timeout)
    if ref[0] != "ok":
        return env.harness("reference run: {}".format(ref))
    out = core.isolated(simulate, case, env.scratch("run"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "the run does not end")
    if out[0] != "ok":
        return env.harness("run: {}".format(out))
    res = out[1]
    fired = {}
    for f in res["fired"]:
        fired[f[0]] = fired.get(f[0], 0) + 1
    fired["clock_" + case["steps"]] = 1
    ndue = sum(len(v) * len(p["outs"][i]["servers"]) for p, w in zip(case["parsers"], want) for i, v in w.items())
    info = {"log": core.digest(repr(res["sent"]), repr(res["rlog"]), res["log"]), "fired": fired, "steps": len(res["sent"]), "now": res["now"], "choices": res["choices"],
            "extra": {"sends": len(res["sent"]), "sockets": res["nsock"], "switches": res["switches"]}}
    env.add(info, nontrivial=ndue > 0)
    bad = judge(case, res, ref[1], want)
    return env.violation(*bad) if bad else env.ok()


def key(o, server):
    return (server, int(o.get("port", 514)), "<{}>".format(int(o.get("facility", 77)) << 3 | 6))


def judge(case, res, ref, want):
    if res["violation"]:
        return res["violation"]
    for a, (p, got, exp) in enumerate(zip(case["parsers"], res["outs"], ref)):
        for j, (x, y) in enumerate(zip(got, exp)):
            if x != y:
                return "syslog-changes-the-parse", "parser {} round {}: without syslog {} with it {}".format(a, j // 2, core.short(str(y), 300), core.short(str(x), 300))
    single = len(case["parsers"]) == 1
    for a, (p, w) in enumerate(zip(case["parsers"], want)):
        who = -1 if single else a
        sent = [s for s in res["sent"] if s["who"] == who]
        servers = sorted({s for o in p["outs"] for s in o["servers"]})
        ok = {}
        for s in sent:
            if s["server"] not in servers:
                return "sent-to-wrong-server", "parser {} sent {!r} to {}".format(a, core.short(str(s["data"]), 200), s["host"])
            if s["ok"]:
                ok.setdefault(s["server"], []).append(s)
        for s in servers:
            exp = []
            outs = [i for i, o in enumerate(p["outs"]) if s in o["servers"]]
            for i in outs:
                exp.append((i, [(key(p["outs"][i], s)[1:], kind, v) for kind, v in w[i]]))
            got = []
            for m in ok.get(s, []):
                g = re.match(rb"(<\d+>)", m["data"])
                if not g:
                    return "not-a-syslog-message", core.short(repr(m["data"]), 300)
                try:
                    v = json.loads(m["data"][g.end():].decode("utf-8"))
                except ValueError:
                    return "not-json-text", core.short(repr(m["data"]), 300)
                got.append(((m["port"], g.group(1).decode()), v))
            lost = sum(1 for f in res["fired"] if f[1] == who and f[2] == s and f[0] != "slow")
            dead = any(f[0] in ("socket", "resolve") and f[1] == who and f[2] == s for f in res["fired"]) or s not in Hosts.IPS and not re.match(r"[\d.]+$|.*:", s)
            bad = explain(exp, got, lost, dead, [len(d) for d in p["rounds"]])
            if bad:
                return bad[0], "parser {} server {}: {}".format(a, core.short(s, 60), bad[1])
        # a socket sends at least the interval apart
        last = {}
        for s in sent:
            iv = [float(o.get("interval", 1)) for o in p["outs"] if s["server"] in o["servers"]]
            if s["sock"] in last and s["t"] - last[s["sock"]] < min(iv) * 1e6 - 1000:
                return "interval-not-kept", "{} ns between two messages to {}, configured {} ms".format(s["t"] - last[s["sock"]], s["host"], iv)
            last[s["sock"]] = s["t"]
    if res["sockets"]:
        return "socket-left-open", "{} of {} sockets are still open".format(res["sockets"], res["nsock"])
    if res["leftover"] or res["live"]:
        return "handler-left-behind", "{} more handlers attached, {} syslog handlers alive".format(res["leftover"], res["live"])
    return None


def same(kind, want, got):
    if kind == "text":
        if not isinstance(got, str):
            return False
        try:
            return core.unordered(json.loads(got)) == core.unordered(want)
        except ValueError:
            return False
    return core.unordered(want) == core.unordered(got)


def explain(exp, got, lost, dead, rounds):
    """every output's messages must appear in order, each once; ``lost`` may miss"""
    # several outputs to one server: outputs of one round follow one another, so take them apart by first unmatched message
    total = sum(len(e) for _, e in exp)
    pos = {i: 0 for i, _ in exp}
    missing = 0
    for head, v in got:
        best = None
        for i, e in exp:
            for k in range(pos[i], len(e)):
                if e[k][0] == head and same(e[k][1], e[k][2], v):
                    if best is None or k - pos[i] < best[1]:
                        best = (i, k - pos[i])
                    break
        if best is None:
            for i, e in exp:
                for k in range(len(e)):
                    if e[k][0] == head and same(e[k][1], e[k][2], v):
                        return "sent-again-or-out-of-order", core.short(str(v), 300)
                    if same(e[k][1], e[k][2], v):
                        return "wrong-port-or-facility", "{} sent with {}, configured {}".format(core.short(str(v), 200), head, e[k][0])
            return "wrong-message", "{!r} is no item of the results of this output".format(core.short(str(v), 400))
        missing += best[1]
        pos[best[0]] += best[1] + 1
    missing += sum(len(e) - pos[i] for i, e in exp)
    if missing and not dead and missing > lost:
        first = next((e[pos[i]] for i, e in exp if pos[i] < len(e)), None)
        return "message-lost", "{} of {} messages were not sent, {} failures were injected; first missing at the end: {}".format(missing, total, lost, core.short(str(first), 200))
    return None


def shrink(case):
    if case.get("hot"):
        yield dict(case, hot=None)
    ps = case["parsers"]
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(case, parsers=ps[:i] + ps[i + 1:])
    for i, p in enumerate(ps):
        def put(**kw):
            return dict(case, parsers=ps[:i] + [dict(p, **kw)] + ps[i + 1:])
        for j in range(len(p["outs"])):
            if len(p["outs"]) > 1:
                yield put(outs=p["outs"][:j] + p["outs"][j + 1:])
            if len(p["outs"][j]["servers"]) > 1:
                for k in range(len(p["outs"][j]["servers"])):
                    o = p["outs"][j]
                    yield put(outs=p["outs"][:j] + [dict(o, servers=o["servers"][:k] + o["servers"][k + 1:])] + p["outs"][j + 1:])
        for j in range(len(p["rounds"])):
            if len(p["rounds"]) > 1:
                yield put(rounds=p["rounds"][:j] + p["rounds"][j + 1:])
            for k in range(len(p["rounds"][j])):
                rd = p["rounds"][j]
                if len(rd) > 1:
                    yield put(rounds=p["rounds"][:j] + [rd[:k] + rd[k + 1:]] + p["rounds"][j + 1:])
                for q in range(len(rd[k]["ifs"])):
                    yield put(rounds=p["rounds"][:j] + [rd[:k] + [dict(rd[k], ifs=rd[k]["ifs"][:q] + rd[k]["ifs"][q + 1:])] + rd[k + 1:]] + p["rounds"][j + 1:])
        if p["per_template"]:
            yield put(per_template=False)
    if case["steps"] != "still":
        yield dict(case, steps="still")


def setup():
    scenario.warm_libs()
    threads.install()
    clock.install()
    net.install()
    logging.raiseExceptions = False
    scenario.import_ttp()
