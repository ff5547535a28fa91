"""C12: time values in results and file names come from one consistent clock reading."""
import datetime as _dt
import os
import random
import re
import time as _t

from .. import clock, core, scenario

ID = "C12"
RULE = ("seed -> a time zone, a clock whose every reading moves it by a chosen step (none, tiny, up to or across second/day/year/DST boundaries, backwards, far), "
        "and a history of 1-3 parsers that load, parse and write with time getters and time-stamped file names; non-trivial: at least one value was checked and "
        "the clock moved between readings; distinct by hash of all readings and values")
REAL = ["whole ttp package", "strftime, time zone rules and datetime arithmetic", "file system"]
STUB = ["time.time/time_ns/localtime/gmtime/strftime/ctime/monotonic/sleep, datetime.now/utcnow/today, date.today (simulated clock)"]
QUICK, THOROUGH = 8000, 120000
GETTERS = ["get_time", "get_date", "get_timestamp", "get_timestamp_ms", "get_timestamp_iso", "get_time_ns"]
ZONES = ["UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NPT-5:45", "<+14>-14", "<-12>12"]
FORMATS = ["out_%Y-%m-%d_%H-%M-%S.txt", "%H%M%S_x", "d%d-%m-%Y", "r_%Y%m%dT%H%M%S%z.log", "day_%A_%B_%d_%p%I.txt", "p_%j_%H.%M.%S"]
S = 10 ** 9
STARTS = [1735689599, 1704067199, 1709164799, 951782399, 1710054000 - 1, 1711846799, 1730614, 1730595599, 1729990799, 1700000000, 1, 4102444799, 2147483647, 1719791999, 999999999]


def gen(seed, tier):
    r = random.Random(seed)
    parsers = []
    for i in range(r.choice([1, 1, 1, 2, 3])):
        gs = r.sample(GETTERS, r.choice([1, 2, 3, 6]))
        if r.random() < 0.3:
            gs += [r.choice(GETTERS)]
        outs = []
        for j in range(r.choice([0, 0, 1, 2])):
            outs.append({"name": r.choice([None, "o{}".format(j)]) if j == 0 else "o{}".format(j), "fname": r.choice([None, r.choice(FORMATS)]), "url": "out{}_{}".format(i, j)})
        hist = []
        for _ in range(r.choice([1, 1, 2, 3])):
            hist.append(["add", r.choice([1, 1, 2, 3])])
            hist.append(["parse"])
            hist.append(["clear"] if r.random() < 0.7 else ["clear_input"])
        parsers.append({"getters": gs, "outs": outs, "hist": hist, "per_template": r.random() < 0.15, "how": r.choice(["vars_tag", "vars_tag", "vars_arg", "add_vars"])})
    start = (r.choice(STARTS) if r.random() < 0.7 else r.randrange(1, 4000000000)) * S + r.choice([0, 1, 1000, 999999, 10 ** 6, 5 * 10 ** 6, 9999999, 99 * 10 ** 6, 999999999, 999999500, 999500000, 999499999, r.randrange(S)])
    return {"parsers": parsers, "start": start, "zone": r.choice(ZONES), "steps": r.choice(["still", "ns", "ms", "edge", "edge", "edge", "jump", "mix", "mix"]), "step_seed": r.randrange(1 << 30), "order": r.randrange(1 << 30)}


def stepper(case):
    r = random.Random(case["step_seed"])

    def edge(c):
        """to just before, onto or just after the next boundary"""
        unit = r.choice([S, S, S, 60 * S, 3600 * S, 86400 * S])
        to = unit - c.ns % unit
        return to + r.choice([-1, -1, -1000, -10 ** 6, -600000, 0, 0, 1, 10 ** 6, 499999])
    kinds = {"still": lambda c: 0, "ns": lambda c: r.randrange(1, 3000), "ms": lambda c: r.randrange(0, 40 * 10 ** 6),
             "edge": lambda c: r.choice([edge, edge, lambda c: r.randrange(0, 2 * 10 ** 6)])(c), "jump": lambda c: r.choice([1, -1]) * r.randrange(0, 3 * 86400 * S)}
    mix = [kinds[k] for k in sorted(kinds)]

    def step(c):
        d = (r.choice(mix) if case["steps"] == "mix" else kinds[case["steps"]])(c)
        return max(d, S - c.ns)
    return step


def template(p):
    t = '<template results="per_template">\n' if p["per_template"] else ""
    if p["how"] == "vars_tag":
        t += '<vars name="vv">\n' + "".join('t{} = "{}"\n'.format(i, g) for i, g in enumerate(p["getters"])) + "</vars>\n"
    t += '<group name="g*">\nitem {{ x }}\n' + "".join('{{{{ s{} | set("t{}") }}}}\n'.format(i, i) for i in range(len(p["getters"]))) + '</group>\n'
    for o in p["outs"]:
        t += '<output {}{}format="json" returner="file" url="{}"/>\n'.format('name="{}" '.format(o["name"]) if o["name"] else "", 'filename="{}" '.format(o["fname"]) if o["fname"] else "", o["url"])
    return t + ("</template>" if p["per_template"] else "")


def play(case, d):
    os.chdir(d)
    os.environ["TZ"] = case["zone"]
    _t.tzset()
    T = scenario.import_ttp().ttp
    ck = clock.Clock(case["start"], stepper(case))
    r = random.Random(case["order"])
    events = []
    todo = [[["load"]] + list(p["hist"]) for p in case["parsers"]]
    objs = [None] * len(todo)
    count = [0] * len(todo)
    with clock.active(ck):
        while any(todo):
            i = r.choice([k for k, h in enumerate(todo) if h])
            op = todo[i].pop(0)
            spec = case["parsers"][i]
            a = len(ck.readings)
            res = None
            if op[0] == "load":
                kw = {}
                vs = {"t{}".format(k): g for k, g in enumerate(spec["getters"])}
                if spec["how"] == "vars_arg":
                    kw["vars"] = vs
                objs[i] = T(log_level="CRITICAL", **kw)
                if spec["how"] == "add_vars":
                    objs[i].add_vars(vs)
                objs[i].add_template(template(spec))
            elif op[0] == "add":
                for _ in range(op[1]):
                    count[i] += 1
                    objs[i].add_input("item i{}\n".format(count[i]))
            elif op[0] == "parse":
                for o in spec["outs"]:
                    if os.path.isdir(o["url"]):
                        for f in os.listdir(o["url"]):
                            os.unlink(os.path.join(o["url"], f))
                objs[i].parse(one=True)
                b = len(ck.readings)
                res = {"res": objs[i].result(), "files": [sorted(os.listdir(o["url"])) if os.path.isdir(o["url"]) else [] for o in spec["outs"]]}
                events.append([i, op, a, b, res])
                continue
            elif op[0] == "clear":
                objs[i].clear_result()
                objs[i].clear_input()
            elif op[0] == "clear_input":
                objs[i].clear_input()
            events.append([i, op, a, len(ck.readings), res])
    return {"readings": ck.readings, "events": events}


def render(g, ns):
    """every acceptable text of getter g at instant ns; instants that pass through a float are a few
    microseconds off, which no user can see"""
    out = set()
    for d in (0, -600, 600, -1000, 1000, -2000, 2000, -3000, 3000):
        n = ns + d
        sec = n // S
        lt = clock.real["localtime"](sec)
        if g == "get_time":
            out.add(clock.real["strftime"]("%H:%M:%S", lt))
        elif g == "get_date":
            out.add(clock.real["strftime"]("%Y-%m-%d", lt))
        elif g == "get_timestamp":
            out.add(clock.real["strftime"]("%Y-%m-%d %H:%M:%S", lt))
        elif g == "get_timestamp_ms":
            base = "%Y-%m-%d %H:%M:%S"
            out.add(clock.real["strftime"](base, lt) + ".{:03d}".format(n // 10 ** 6 % 1000))
            m = n + 500000
            out.add(clock.real["strftime"](base, clock.real["localtime"](m // S)) + ".{:03d}".format(m // 10 ** 6 % 1000))
        elif g == "get_timestamp_iso":
            u = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=n // 1000)
            out.add(u.strftime("%Y-%m-%dT%H:%M:%S.") + "{:06d}+00:00".format(u.microsecond))
            if u.microsecond == 0:
                out.add(u.strftime("%Y-%m-%dT%H:%M:%S+00:00"))
        elif g == "get_time_ns":
            if d == 0:
                out.add(n)
    return out


def fname_texts(fmt, ns):
    return {clock.real["strftime"](fmt, clock.real["localtime"]((ns + d) // S)) for d in (0, -600, 600, -3000, 3000)}


def values_of(spec, res, nd):
    """per datum: list of (getter, value); None when the shape is unexpected"""
    out = []
    data = res[0]
    if spec["per_template"]:
        data = [data] if isinstance(data, dict) else data
    items = []
    for d in data:
        g = d.get("g", [])
        for it in g:
            items.append((it, d.get("vv")))
    for it, vv in items:
        vals = []
        for k, g in enumerate(spec["getters"]):
            vals.append((g, it.get("s{}".format(k))))
            if vv is not None and not spec["per_template"]:
                vals.append((g, vv.get("t{}".format(k))))
                if vv.get("t{}".format(k)) != it.get("s{}".format(k)):
                    return None
        out.append((it, vals))
    return out


def run(case, env):
    out = core.isolated(play, case, env.scratch("run"), timeout=env.timeout)
    if out[0] != "ok":
        return env.harness("run: {}".format(out))
    res = out[1]
    R = res["readings"]
    checked = 0
    moved = len(set(R)) > 1
    fired = {"clock_" + case["steps"]: len(R), "backward_step": sum(1 for a, b in zip(R, R[1:]) if b < a), "still": sum(1 for a, b in zip(R, R[1:]) if b == a),
             "second_crossed": sum(1 for a, b in zip(R, R[1:]) if b // S != a // S), "day_crossed": sum(1 for a, b in zip(R, R[1:]) if b // (86400 * S) != a // (86400 * S))}
    info = {"log": core.digest(repr(R), repr(res["events"])), "fired": fired, "steps": len(R), "now": sum(max(0, b - a) for a, b in zip(R, R[1:])) / 1e9, "extra": {}}
    env.add(info, nontrivial=False)
    os.environ["TZ"] = case["zone"]
    _t.tzset()
    try:
        bad = judge(case, res, info)
    finally:
        os.environ["TZ"] = "UTC"
        _t.tzset()
    env.add(info, nontrivial=moved and info["extra"].get("values", 0) > 0)
    if bad:
        return env.violation(*bad)
    return env.ok()


def judge(case, res, info):
    R = res["readings"]
    n = 0
    loadw = {}
    done = {}
    for i, op, a, b, r in res["events"]:
        spec = case["parsers"][i]
        if op[0] == "load":
            loadw[i] = (a, b)
        if op[0] == "clear":
            done[i] = 0
        if op[0] != "parse":
            continue
        vals = values_of(spec, r["res"], None)
        if vals is None:
            return "one-variable-two-values", core.short(str(r["res"]), 600)
        # results of earlier parses come first
        new = vals[done.get(i, 0):]
        done[i] = len(vals)
        last = a - 1
        for it, vs in new:
            vs = list(vs)
            top = last
            for g, v in vs:
                n += 1
                idx = next((k for k in range(last + 1, b) if v in render(g, R[k])), None)
                if idx is None:
                    near = [sorted(map(str, render(g, x)))[0] for x in R[a:b]]
                    why = "was read for an earlier datum" if any(v in render(g, R[k]) for k in range(a, last + 1)) else \
                          "was read before this parse" if any(v in render(g, x) for x in R[:a]) else "is no instant the clock showed"
                    return "wrong-time-value", "{} gave {!r} for {}, which {}; the clock showed {} during the parse".format(g, v, it.get("x"), why, core.short(str(near), 400))
                top = max(top, idx)
            last = top
        for o, files in zip(spec["outs"], r["files"]):
            n += 1
            if len(files) != 1:
                return "wrong-file-name", "{} files written by one output: {}".format(len(files), files)
            if o["fname"]:
                lo, hi = loadw[i]
                ok = any(files[0] in fname_texts(o["fname"], x) for x in R[lo:hi])
                w = "while the template was loaded"
                shown = [sorted(fname_texts(o["fname"], x))[0] for x in R[lo:hi]]
            else:
                pre = (o["name"] + "_" if o["name"] else "") + "output_%Y-%m-%d_%H-%M-%S.txt"
                ok = any(files[0] in fname_texts(pre, x) for x in R[last + 1:b])
                w = "after the last datum was parsed"
                shown = [sorted(fname_texts(pre, x))[0] for x in R[last + 1:b]]
            if not ok:
                return "wrong-file-name", "{!r} is not the time {}: {}".format(files[0], w, core.short(str(shown), 300))
    info["extra"] = {"values": n, "clock_readings": len(R)}
    return None


def shrink(case):
    ps = case["parsers"]
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(case, parsers=ps[:i] + ps[i + 1:])
    for i, p in enumerate(ps):
        def put(x):
            return dict(case, parsers=ps[:i] + [x] + ps[i + 1:])
        for k in ("getters", "outs"):
            for j in range(len(p[k])):
                if len(p[k]) > 1 or k == "outs":
                    yield put(dict(p, **{k: p[k][:j] + p[k][j + 1:]}))
        for j in range(len(p["hist"])):
            yield put(dict(p, hist=p["hist"][:j] + p["hist"][j + 1:]))
    if case["zone"] != "UTC":
        yield dict(case, zone="UTC")


def setup():
    scenario.warm_libs()
    clock.install()
    scenario.import_ttp()
