"""C06: a failed or interrupted parse leaves the parser object usable."""
import os
import random
import sys

from .. import core, scenario, session, threads, workload

ID = "C06"
RULE = ("seed -> parser set-up, 1-2 parse() calls each ended by an injected failure (exception at a chosen executed line of ttp, plugin or macro "
        "code; at a chosen call of a user function or macro; a data file or output target that fails) and a recovery; non-trivial: "
        "the injected failure fired inside parse(); distinct by hash of (failure site, kind, outcome) sequence")
REAL = ["whole ttp package incl. plugin loading, files and outputs"]
STUB = ["source of exceptions and interrupts (line tracer, user functions)"]
QUICK, THOROUGH = 2400, 60000
GETTERS = ("gethostname", "getfilename", "get_time", "get_date", "get_timestamp", "cf_variable", "time_ns")
KINDS = {"interrupt": KeyboardInterrupt, "exit": SystemExit, "memory": MemoryError, "error": scenario.Injected, "os": OSError,
         "recursion": RecursionError, "value": ValueError, "key": KeyError, "index": IndexError, "type": TypeError, "attr": AttributeError}

TK = """
<macro>
def tk(data):
    from dst.scenario import tick
    tick()
    return data
def tkg(data):
    from dst.scenario import tick
    tick()
    data["tkg"] = len(data)
    return data
def tko(data):
    from dst.scenario import tick
    tick()
    return data
</macro>
<group name="tk*" macro="tkg">
tick {{ a | macro("tk") }} {{ b }}
</group>
"""


def gen(seed, tier):
    r = random.Random(seed)
    s, flags = session.gen_script(r, "p", carry=False, rounds=1, fail=0.1, custom=0.8)
    keep = ("new", "fn", "tmpl", "lookup", "vars", "write", "input", "load")
    setup = [op for op in s if op[0] in keep]
    ins = [op for op in setup if op[0] in ("input", "write")]
    setup = [op for op in setup if op[0] not in ("input", "write")]
    corpus = False
    for op in setup:
        if op[0] == "tmpl" and "<template" not in op[1] and r.random() < 0.6:
            op[1] += TK + ('<output macro="tko"/>\n' if r.random() < 0.3 else "")
            for i in ins:
                d = i[1]["data"] if i[0] == "input" else i[2]
                t = "".join("tick {} {}\n".format(workload.w(r), workload.w(r)) for _ in range(r.randrange(3)))
                if isinstance(d, list):
                    d += t.split("\n")
                elif i[0] == "write":
                    i[2] = d + t
                elif "\n" in d:
                    i[1]["data"] = d + t
    case = {"setup": setup, "inputs": ins, "fails": [fail_plan(r, setup, ins) for _ in range(r.choice([1, 1, 1, 2]))]}
    rec = []
    how = r.choice(["again", "again", "keep", "keep", "set"])
    clear = [["clear"]]
    if how == "again":
        rec = clear + [["clear_input"]] + ins
        if r.random() < 0.3:
            rec = [["clear_input"]] + clear + ins
    elif how == "keep":
        rec = clear
    else:
        pick = [i for i in ins if i[0] == "input"]
        rec = clear + [["set_input", dict(r.choice(pick)[1], template="_all_")]]
    if r.random() < 0.3:
        rec = rec + [["vars", {"extra": "late", "site0": "late"}]]
    rec = rec + [["parse"], ["result", session.gen_result(r)]]
    if r.random() < 0.4:
        rec += [["clear"], ["parse"], ["result", {}]]
    rec += [op for op in s if op[0] in ("cat", "load")]
    case["recover"] = rec
    return case


def fail_plan(r, setup, ins):
    getters = any(g in str(op) for op in setup for g in GETTERS)
    k = r.random()
    files = [op[1] for op in ins if op[0] == "write"]
    url = [op[1].split('returner="file"')[1].split('url="')[1].split('"')[0] for op in setup if op[0] == "tmpl" and 'returner="file"' in op[1]]
    if files and k < 0.25:
        return {"at": "file", "path": r.choice(files), "how": r.choice(["gone", "dir", "undecodable", "cut"])}
    if url and k < 0.35:
        return {"at": "out", "path": url[0]}
    if k < 0.5:
        return {"at": "call", "frac": r.random(), "kind": r.choice(["error", "interrupt", "memory", "exit", "os", "key", "index", "value", "type", "attr"]), "getters": getters}
    return {"at": "line", "frac": r.random(), "kind": r.choice(["interrupt", "interrupt", "exit", "memory", "error", "os", "recursion", "key", "index", "value"]),
            "getters": getters}


class Tracer:
    """counts the executed lines of ttp and macro code; raises at the k-th"""

    def __init__(self, k=None, exc=None):
        self.k, self.exc, self.n = k, exc, 0
        self.where = None
        self.files = {}
        self.classify = threads.Scheduler(core.Choices(0)).interesting

    def glob(self, frame, event, arg):
        if self.classify(frame.f_code.co_filename):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == "line" and self.where is None:
            self.n += 1
            if self.n == self.k:
                st, f, plugin = [], frame, False
                while f is not None:
                    if self.classify(f.f_code.co_filename):
                        st.append(f.f_code.co_name)
                        plugin = plugin or self.classify(f.f_code.co_filename) == 2 and "utils" not in f.f_code.co_filename
                    f = f.f_back
                self.where = [os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name, plugin]
                raise self.exc("injected at line {}".format(self.k))
        return self.loc

    def run(self, f):
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(None)


def fault_files(plan, case, on):
    """make or undo a failing file; outside of the parser"""
    p = plan["path"]
    if plan["at"] == "out":
        if on:
            if not os.path.exists(p):
                with open(p, "w") as f:
                    f.write("not a directory")
                return True
            return False
        if os.path.isfile(p):
            os.unlink(p)
        return True
    if on:
        os.rename(p, p + ".saved")
        if plan["how"] == "dir":
            os.mkdir(p)
        elif plan["how"] == "undecodable":
            with open(p, "wb") as f:
                f.write(b"interface x\n\xff\xfe\x80\n")
        elif plan["how"] == "cut":
            os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
            with open(p, "wb") as f:
                f.write("caf\u00e9".encode("utf-8")[:-1])
    else:
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        os.rename(p + ".saved", p)
    return True


def play(case, scratch, faulty):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    s = session.Session([list(op) for op in case["setup"]] + case["inputs"], {})
    while not s.done():
        s.step()
    sites = []
    if faulty:
        for plan in faulty:
            scenario.TICK[:] = [0, None, None]
            before = len(s.kept)
            if plan["at"] in ("file", "out"):
                armed = fault_files(plan, case, True)
                o = scenario.outcome(s.p.parse, one=True)
                if armed:
                    fault_files(plan, case, False)
                fired = armed
                site = [plan["at"], plan.get("how")]
            elif plan["at"] == "call":
                scenario.TICK[1:] = [plan["k"], KINDS[plan["kind"]]] if plan["k"] else [None, None]
                o = scenario.outcome(s.p.parse, one=True)
                fired = bool(plan["k"]) and scenario.TICK[1] is None
                site = ["call", plan["k"]]
            else:
                tr = Tracer(plan["k"], KINDS[plan["kind"]])
                o = scenario.outcome(tr.run, lambda: s.p.parse(one=True))
                fired = tr.where is not None
                site = tr.where
            scenario.TICK[1:] = [None, None]
            res = scenario.outcome(s.p.result)
            sites.append([fired, plan.get("kind", plan["at"]), site, list(o[:2]), list(res[:2])])
    s.script = s.script + case["recover"]
    s.text = core.canon(s.script)
    n = len(s.out)
    while not s.done():
        s.step()
    return {"out": s.out[n:], "kept": s.finish(), "sites": sites}


def count(case, scratch):
    """lines and user calls of a parse without faults, its outcome"""
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    s = session.Session([list(op) for op in case["setup"]] + case["inputs"], {})
    while not s.done():
        s.step()
    tr = Tracer()
    scenario.TICK[:] = [0, None, None]
    o = scenario.outcome(tr.run, lambda: s.p.parse(one=True))
    ticks = scenario.TICK[0]
    one = list(scenario.outcome(s.p.result)[:2])
    # an output can replace the results by the same ones again
    scenario.outcome(s.p.parse, one=True)
    return {"lines": tr.n, "ticks": ticks, "outcome": list(o[:2]), "result": one, "moves": list(scenario.outcome(s.p.result)[:2]) != one,
            "wrote": [p["path"] for p in case["fails"] if p["at"] == "out" and os.path.isdir(p["path"])]}


def run(case, env):
    base = core.isolated(count, case, env.scratch("run"), timeout=env.timeout)
    if base[0] != "ok":
        return env.harness("dry run: {}".format(base))
    base = base[1]
    plans = []
    for p in case["fails"]:
        p = dict(p)
        if p["at"] == "line":
            p["k"] = p.get("k", 1 + int(p["frac"] * max(0, base["lines"] - 1)))
        elif p["at"] == "call":
            p["k"] = p.get("k", 1 + int(p["frac"] * (base["ticks"] - 1)) if base["ticks"] else 0)
        plans.append(p)
    ref = core.isolated(play, case, env.scratch("run"), None, timeout=env.timeout)
    if ref[0] != "ok":
        return env.harness("reference run: {}".format(ref))
    out = core.isolated(play, case, env.scratch("run"), plans, timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "does not end after a failure")
    if out[0] != "ok":
        return env.harness("faulty run: {}".format(out))
    ref, out = ref[1], out[1]
    fired = {}
    for s in out["sites"]:
        if s[0]:
            k = "{}:{}".format(s[2][0] if s[2] and s[2][0] in ("file", "out", "call") else "line", s[1] if s[2] and s[2][0] not in ("file",) else s[2][1])
            fired[k] = fired.get(k, 0) + 1
    env.add({"log": core.digest(repr(out["sites"]), repr(out["out"])), "fired": fired, "steps": base["lines"],
             "extra": {"lines": base["lines"], "user_calls": base["ticks"], "raised": sum(s[3][0] == "raised" for s in out["sites"])},
             "tail": [[str(x) for x in s[:3]] for s in out["sites"]]}, nontrivial=any(s[0] for s in out["sites"]))
    tail = {"tail": [[core.short(str(x), 200) for x in s] for s in out["sites"]]}
    for n, (s, p) in enumerate(zip(out["sites"], plans)):
        if not s[0]:
            continue
        reached = s[3][0] == "raised"
        exact = s[3][1] == KINDS[p["kind"]].__name__ if "kind" in p and reached else reached
        hard = p.get("kind") in ("interrupt", "exit")
        if p["at"] in ("line", "call") and hard:
            if not exact:
                return env.violation("interrupt-suppressed", "{} at {}: parse() gave {}".format(p["kind"], s[2], s[3]), res=tail)
        elif reached:
            continue
        elif n and not p.get("getters") and base["moves"] and out["sites"][n - 1][4] == s[4]:
            return env.violation("error-suppressed", "{} at {}: parse() returned".format(s[1], s[2]), res=tail)
        elif p["at"] == "call" and not p["getters"] and base["outcome"][0] == "ok":
            return env.violation("error-suppressed", "{} in user function call {}: parse() returned".format(p["kind"], s[2]), res=tail)
        elif p["at"] == "line" and not p["getters"] and not s[2][3] and n == 0 and base["outcome"][0] == "ok" and s[4] != base["result"]:
            return env.violation("error-suppressed", "{} at {}: parse() returned other results".format(p["kind"], s[2]), res=tail)
        elif p["at"] == "file" and base["outcome"][0] == "ok" and n == 0 and s[4] != base["result"]:
            return env.violation("error-suppressed", "file {} {}: parse() returned".format(p["path"], p["how"]), res=tail)
        elif p["at"] == "out" and base["outcome"][0] == "ok" and n == 0 and p["path"] in base["wrote"]:
            return env.violation("error-suppressed", "output to {} failed: parse() returned".format(p["path"]), res=tail)
    for j, (a, b) in enumerate(zip(ref["out"], out["out"])):
        if case["recover"][j][0] == "cat" and any(o[0] == "raised" for o in ref["out"][:j]):
            continue  # files of the failed parse stay
        if a != b:
            return env.violation("not-usable-after-failure", "call {} {}: {}".format(j, core.short(str(case["recover"][j]), 200), diff(a, b)), res=tail)
    if out["kept"] and not ref["kept"]:
        return env.violation("caller-object-modified", out["kept"], res=tail)
    return env.ok()


def diff(a, b):
    if a[0] == b[0] == "ok":
        return core.first_diff(a[1], b[1])
    return "expected {} got {}".format(core.short(str(a), 300), core.short(str(b), 300))


def shrink(case):
    for i in range(len(case["fails"])):
        if len(case["fails"]) > 1:
            yield dict(case, fails=case["fails"][:i] + case["fails"][i + 1:])
    for i in range(len(case["recover"]) - 1, -1, -1):
        if case["recover"][i][0] in ("clear", "clear_input", "set_input") or i == [o[0] for o in case["recover"]].index("parse"):
            continue
        yield dict(case, recover=case["recover"][:i] + case["recover"][i + 1:])
    for i in range(len(case["inputs"])):
        yield dict(case, inputs=case["inputs"][:i] + case["inputs"][i + 1:])
    for c in session.shrink_scripts({"scripts": [case["setup"]]}):
        if c["scripts"]:
            yield dict(case, setup=c["scripts"][0])
    for i, f in enumerate(case["fails"]):
        for frac in (0.0, 0.25, 0.5, 0.75, f.get("frac", 0) / 2):
            if "frac" in f and f["frac"] > frac:
                yield dict(case, fails=case["fails"][:i] + [dict(f, frac=frac)] + case["fails"][i + 1:])


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
