"""C24: parsers leave nothing behind in the process that uses them."""
import array
import collections
import decimal
import functools
import gc
import json
import locale
import logging
import os
import random
import re
import signal
import socket
import sys
import tempfile
import threading
import warnings
import weakref

from .. import core, scenario, session, workload
from . import c06

ID = "C24"
RULE = ("seed -> either a history of calls on one parser with 1-4 parse() calls ended by injected failures (exception at an executed line, at a call of a user function, "
        "failing data file or output target), with the state of the process looked at after each call, or 12 equal rounds of using one parser or of making and "
        "deleting parsers, with the objects and container entries in existence counted after each round; non-trivial: an injected failure fired or the rounds parsed data; distinct by hash of calls, failure sites and outcomes")
REAL = ["whole ttp package incl. plugin loading, files and outputs", "process state: descriptors, threads, environment, allocator counts"]
STUB = ["source of exceptions and interrupts (line tracer, user functions)"]
QUICK, THOROUGH = 1600, 40000
ROUNDS = 12
WARM = 4


def gen(seed, tier):
    r = random.Random(seed)
    if r.random() < 0.5:
        c = c06.gen(seed * 7 + 1, tier)
        for op in c["setup"]:
            if op[0] == "tmpl" and "<output" not in op[1] and "<template" not in op[1] and r.random() < 0.4:
                op[1] += '\n<output returner="{}" url="outq" filename="q.txt" format="{}"/>\n'.format("file", r.choice(["json", "yaml", "pprint", "raw"]))
        for op in c["setup"]:
            if op[0] == "tmpl":
                syslog(r, op)
        fails = [c06.fail_plan(r, c["setup"], c["inputs"]) for _ in range(r.choice([1, 2, 3, 4]))]
        outs = [re.search('returner="file".*? url="(.*?)" filename="(.*?)"|$', op[1]).groups() for op in c["setup"] if op[0] == "tmpl"]
        outs = [o for o in outs if o[0]]
        for i in range(len(fails)):
            if outs and r.random() < 0.4:
                fails[i] = {"at": "out", "path": "/".join(r.choice(outs)), "how": "dir"}
        return {"kind": "faults", "setup": c["setup"], "inputs": c["inputs"], "fails": fails, "between": [r.choice(["clear", "none", "again", "all"]) for _ in fails], "result": session.gen_result(r)}
    s, flags = session.gen_script(r, "p", carry=False, rounds=1, fail=0.05, custom=0.6, fout=0.4)
    for op in s:
        if op[0] == "tmpl":
            syslog(r, op)
    return {"kind": r.choice(["rounds", "rounds", "fresh", "fresh", "many", "many"]), "script": s, "fail": r.choice([None, None, None, r.random()]), "results": [session.gen_result(r), {}]}


def syslog(r, op):
    """send results nowhere: what is sent is decided by C10, here it is what stays open"""
    if "<template" not in op[1] and r.random() < 0.2:
        op[1] += '\n<output returner="syslog" servers="{}" port="9" iterate="{}" interval="0"/>\n'.format("127.0.0.1", r.choice(["True", "False"]))


# ------------------------------------------------------------ state of the process
def descriptors():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if not t.startswith("/proc/"):
            out.append("{} {}".format(n, re.sub(r"\d+", "#", t) if t.startswith(("pipe", "anon", "socket")) else t))
    return sorted(out)


def snapshot():
    m = os.umask(0)
    os.umask(m)
    import builtins
    logs = {"": (len(logging.root.handlers), logging.root.level)}
    for n, l in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(l, logging.Logger) and l.handlers:
            logs[n] = (len(l.handlers), l.level)
    return {
        "open descriptors": descriptors(),
        "threads": sorted(t.name for t in threading.enumerate()),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": m,
        "module search path": list(sys.path),
        "arguments": list(sys.argv),
        "standard streams": [(id(s), s.closed if s is not None else None, getattr(s, "errors", None), getattr(s, "encoding", None)) for s in (sys.stdin, sys.stdout, sys.stderr)],
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), sys.gettrace(), sys.getprofile(), id(sys.stdout.write) and 0],
        "socket timeout": socket.getdefaulttimeout(),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP)],
        "alarm": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "random state": core.digest(repr(random.getstate())),
        "warning filters": [str(f) for f in warnings.filters],
        "decimal context": str(decimal.getcontext()),
        "log handlers": logs,
        "logging disabled": logging.root.manager.disable,
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "temporary files": sorted(os.listdir(tempfile.gettempdir())),
        "files next to the function cache": sorted(f for f in os.listdir(os.environ["TTPCACHEFOLDER"]) if f != "ttp_dict_cache.pickle"),
    }


def compare(a, b):
    for k in sorted(a):
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
                return [k, "differs in {}".format(d[:5])]
            return [k, core.short("{} became {}".format(a[k], b[k]), 500)]
    return None


def prepare(d):
    os.chdir(d)
    t = os.path.join(d, "tmp_of_process")
    os.makedirs(t, exist_ok=True)
    os.environ["TMPDIR"] = t
    tempfile.tempdir = t
    c = os.path.join(d, "cache_of_process")
    os.makedirs(c, exist_ok=True)
    os.environ["TTPCACHEFOLDER"] = c
    w = os.path.join(d, "work")
    os.makedirs(w, exist_ok=True)
    os.chdir(w)
    before = snapshot()
    T = scenario.import_ttp().ttp
    T(log_level="CRITICAL")
    gc.collect()
    gc.freeze()
    return before


def output_target(p, on):
    """there is a directory in place of the output file"""
    if on:
        if os.path.lexists(p["path"]):
            os.unlink(p["path"])
        os.makedirs(p["path"])
    else:
        os.rmdir(p["path"])
    return True


def faults(case, d):
    before = prepare(d)
    work = os.getcwd()
    s = session.Session([list(op) for op in case["setup"]] + case["inputs"], {})
    changed = []
    sites = []

    def look(where):
        gc.collect()
        c = compare(before, snapshot())
        if c and not changed:
            changed.append([where] + c)
    while not s.done():
        o = s.step()
        look("{} {}".format(s.script[s.i - 1][0], o[0]))
    for plan, then in zip(case["fails"], case["between"]):
        p = dict(plan)
        if s.p is None:
            break
        if p["at"] in ("line", "call"):
            # how far a parse goes is known from one without a failure
            if p["at"] == "line":
                tr = c06.Tracer()
                scenario.outcome(tr.run, lambda: s.p.parse(one=True))
                p["k"] = 1 + int(p["frac"] * max(0, tr.n - 1))
            else:
                n0 = scenario.TICK[0] = 0
                scenario.outcome(s.p.parse, one=True)
                p["k"] = 1 + int(p["frac"] * max(0, scenario.TICK[0] - n0 - 1))
            look("parse")
        scenario.TICK[:] = [0, None, None]
        if p["at"] in ("file", "out"):
            armed = output_target(p, True) if p.get("how") == "dir" and p["at"] == "out" else c06.fault_files(p, case, True)
            o = scenario.outcome(s.p.parse, one=True)
            cwd = os.getcwd()
            os.chdir(work)
            if armed:
                output_target(p, False) if p.get("how") == "dir" and p["at"] == "out" else c06.fault_files(p, case, False)
            os.chdir(cwd)
            fired, site = armed, [p["at"], p.get("how")]
        elif p["at"] == "call":
            scenario.TICK[1:] = [p["k"], c06.KINDS[p["kind"]]]
            o = scenario.outcome(s.p.parse, one=True)
            fired, site = scenario.TICK[1] is None, ["call", p["k"]]
        else:
            tr = c06.Tracer(p["k"], c06.KINDS[p["kind"]])
            o = scenario.outcome(tr.run, lambda: s.p.parse(one=True))
            fired, site = tr.where is not None, tr.where
            tr = None
        scenario.TICK[1:] = [None, None]
        sites.append([bool(fired), p.get("kind", p["at"]), site, list(o[:2])])
        o = None
        look("parse ended by {} at {}".format(p.get("kind", p["at"]), site))
        scenario.outcome(s.p.result, **dict(case["result"]))
        if then in ("clear", "all"):
            s.p.clear_result()
        if then in ("again", "all"):
            s.p.clear_input()
            for i in case["inputs"]:
                if i[0] == "input":
                    scenario.outcome(s.do, i)
    look("result")
    ref = weakref.ref(s.p) if s.p is not None else (lambda: None)
    s.p = None
    s = None
    gc.collect()
    kept = ref() is not None
    return {"changed": changed[0] if changed else None, "kept": kept, "why": why(ref()) if kept else None, "sites": sites, "last": compare(before, snapshot())}


def why(p):
    """what refers to a parser that nobody uses any more"""
    out = []
    for r in gc.get_referrers(p):
        if isinstance(r, dict):
            for r2 in gc.get_referrers(r):
                n = getattr(r2, "__name__", None) or type(r2).__name__
                out.append("dict of {}".format(n))
        else:
            out.append(type(r).__name__)
    return sorted(set(out))[:8]


def reworded(op, k):
    """the same call with other words in its data, as long as the ones before"""
    t = json.dumps(op)
    t = re.sub(r"([a-z]{3,})(\d{1,2})\b", lambda m: "{}{:04d}".format(m.group(1), 1000 + (k * 37 + int(m.group(2))) % 8000), t)
    return json.loads(t)


def caches():
    """bounded caches can be empty or full: make them empty"""
    re.purge()
    import linecache
    linecache.clearcache()
    for o in gc.get_objects():
        if type(o) is functools._lru_cache_wrapper and o.cache_parameters()["maxsize"] is not None:
            o.cache_clear()


def census():
    """how many objects there are, and how many entries in containers: what python keeps for
    itself (interned strings, free lists) is not in it"""
    n = 0
    for o in gc.get_objects():
        t = type(o)
        n += 1
        if t is dict:
            n += len(o)
            for v in o.values():
                if type(v) is dict and not gc.is_tracked(v):
                    n += len(v)
        elif t in (list, set, bytearray, collections.deque, collections.OrderedDict, collections.defaultdict):
            n += len(o)
    return n


def rounds(case, d):
    before = prepare(d)
    gc.unfreeze()
    setup = [op for op in case["script"] if op[0] in ("new", "fn", "tmpl", "lookup", "vars")]
    rest = [op for op in case["script"] if op[0] in ("write", "input")]
    used = array.array("q", [0] * ROUNDS)
    kind = case["kind"]
    T = [0, 0]

    def make():
        s = session.Session([], {})
        for op in setup:
            scenario.outcome(s.do, op)
        return s

    def use(s, k):
        if s.p is None:
            return
        s.p.clear_result()
        s.p.clear_input()
        for op in rest:
            if kind == "fresh":
                op = reworded(op, k)
            scenario.outcome(s.do, op)
        if case["fail"] is not None:
            scenario.TICK[:] = [0, 1 + int(case["fail"] * 6), ValueError]
        o = scenario.outcome(s.p.parse, one=True)
        scenario.TICK[:] = [0, None, None]
        for kw in case["results"]:
            x = scenario.outcome(s.p.result, **dict(kw))
            T[0] = len(x[1]) if x[0] == "ok" else 0
        T[1] = o[0] == "ok"
        o = x = None
        s.p.clear_result()
        s.p.clear_input()
    one = make() if kind != "many" else None
    for k in range(ROUNDS):
        if kind == "many":
            s = make()
            use(s, k)
            s.p = None
            s = None
        else:
            use(one, k)
        caches()
        gc.collect()
        used[k] = census()
    grown = [used[k] - used[k - 1] for k in range(WARM, ROUNDS)]
    leak = all(g > 0 for g in grown)
    one = None
    gc.collect()
    return {"grown": grown, "leak": leak, "last": compare(before, snapshot()), "size": T[0], "ok": T[1]}


def run(case, env):
    out = core.isolated(faults if case["kind"] == "faults" else rounds, case, env.scratch("run"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "does not end after a failure")
    if out[0] != "ok":
        return env.harness("run: {}".format(out))
    res = out[1]
    if case["kind"] == "faults":
        fired = {}
        for s in res["sites"]:
            if s[0]:
                k = "{}:{}".format(s[2][0] if s[2] and s[2][0] in ("file", "out", "call") else "line", s[1])
                fired[k] = fired.get(k, 0) + 1
        env.add({"log": core.digest(repr(res["sites"])), "fired": fired, "steps": len(res["sites"]), "extra": {"failed_parses": sum(fired.values())},
                 "tail": [[core.short(str(x), 200) for x in s] for s in res["sites"]]}, nontrivial=any(s[0] for s in res["sites"]))
        if res["changed"]:
            w, k, v = res["changed"]
            return env.violation("process-changed", "{} after {}: {}".format(k, w, v))
        # (python itself sometimes never frees a frame in which a line tracer raised)
        if res["kept"] and not any(x[0] and x[2] and x[2][0] not in ("file", "out", "call") for x in res["sites"]):
            return env.violation("parser-not-freed", "a deleted parser is still referred to by {}".format(res["why"]))
    else:
        env.add({"log": core.digest(repr(case["script"]), case["kind"], res["size"]), "fired": {"round:" + case["kind"]: ROUNDS}, "steps": ROUNDS, "extra": {"rounds": ROUNDS}}, nontrivial=res["ok"])
        if res["leak"]:
            return env.violation("memory-grows", "{} rounds: objects and entries of containers grew by {} in rounds {} to {}".format(case["kind"], res["grown"], WARM + 1, ROUNDS))
    if res["last"]:
        return env.violation("process-changed", "{} at the end: {}".format(*res["last"]))
    return env.ok()


def shrink(case):
    if case["kind"] == "faults":
        for i in range(len(case["fails"])):
            if len(case["fails"]) > 1:
                yield dict(case, fails=case["fails"][:i] + case["fails"][i + 1:], between=case["between"][:i] + case["between"][i + 1:])
        for i in range(len(case["inputs"])):
            yield dict(case, inputs=case["inputs"][:i] + case["inputs"][i + 1:])
        for c in session.shrink_scripts({"scripts": [case["setup"]]}):
            if c["scripts"]:
                yield dict(case, setup=c["scripts"][0])
        return
    if case["fail"] is not None:
        yield dict(case, fail=None)
    if len(case["results"]) > 1:
        yield dict(case, results=case["results"][:1])
        yield dict(case, results=case["results"][1:])
    for c in session.shrink_scripts({"scripts": [case["script"]]}):
        if c["scripts"]:
            yield dict(case, script=c["scripts"][0])


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
