"""C02: a failing worker makes parallel parsing fail cleanly."""
import copy
import random

from .. import core, scenario, simfault, workload
from . import c01
from . import mp_common as M

ID = "C02"
RULE = ("seed -> workload, CPU count, schedule and 1-3 faults (exception kinds raised inside a worker, worker killed at its n-th "
        "queue operation, also while holding the queue lock, start failure, result that cannot be transferred, interrupt of the "
        "caller); non-trivial: a fault fired; distinct by event-log hash")
REAL = c01.REAL + ["error hand-over and worker clean-up of parse()"]
STUB = c01.STUB + ["process death and start failure (injected by the process simulator)"]
QUICK, THOROUGH = 1600, 40000
HOWS = ["raise", "exit", "exit0", "osexit", "osexit0", "memory", "interrupt", "unpicklable", "badload"]
ERRS = sorted(scenario.ERRORS)
GROUP = '\n<group name="bm*">\nbmline {{{{ w | cf_boom(how="{}") }}}}\n</group>\n'


def gen(seed, tier):
    r = random.Random(seed)
    for _ in range(20):
        spec = M.gen_spec(r, custom=0.15, phases=False)
        if len(spec["inputs"]) and "<template" not in spec["templates"][0]["text"]:
            break
    k = M.gen_kernel(r)
    how = "none"
    faults = []
    kinds = []
    if r.random() < 0.5:
        how = r.choice(HOWS) if r.random() < 0.7 else r.choice(ERRS)
        kinds.append("boom:" + how)
    spec["functions"].append(["match", "cf_boom"])
    spec["how"] = how
    spec["templates"][0]["text"] += GROUP.format("HOW")
    texts = [i for i in spec["inputs"] if isinstance(i["data"], str) and i["data"] not in spec["files"] and not i["data"].startswith("dir")]
    targets = texts and r.sample(texts, min(len(texts), r.choice([1, 1, 1, 2])))
    files = sorted(spec["files"])
    if not targets or (files and r.random() < 0.4):
        for f in (r.sample(files, 1) if files else []):
            spec["files"][f] += "\nbmline boom{}\n".format(r.randrange(9))
    else:
        for i in targets:
            i["data"] += "\nbmline boom{}\n".format(r.randrange(9))
    if r.random() < 0.35:
        # macros that can not be loaded by one of the processes
        spec["templates"][0]["text"] += simfault.LOAD_MACRO
        for i in texts:
            i["data"] += "\nlmac {}\n".format(workload.w(r))
        for f in files:
            spec["files"][f] += "\nlmac {}\n".format(workload.w(r))
        if r.random() < 0.7:
            faults.append({"kind": "load_fails", "worker": r.randrange(1, k["cpus"] + 1), "exc": r.choice(sorted(simfault.KINDS))})
    if r.random() < 0.15:
        faults.append({"kind": "open_fails", "worker": r.randrange(1, k["cpus"] + 1), "at": r.choice([1, 1, 2, 3, 5, 9, 20, 60]), "stays": r.random() < 0.3})
    n = 0 if (how != "none" or faults) and r.random() < 0.6 else r.choice([1, 1, 2])
    for _ in range(n):
        kind = r.choice(["kill", "kill", "kill", "hold", "start_fails", "interrupt"])
        w = r.randrange(1, k["cpus"] + 1)
        if kind == "kill":
            faults.append({"kind": "kill", "worker": w, "at": r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12])})
        elif kind == "hold":
            faults.append({"kind": "kill", "worker": w, "at": r.choice([1, 1, 2, 3]), "holding": True})
        elif kind == "interrupt":
            faults.append({"kind": "interrupt", "at": r.randrange(1, 12)})
        else:
            faults.append({"kind": "start_fails", "worker": w})
    return {"spec": spec, "kernel": k, "faults": faults, "mode": "multi", "sched_seed": r.randrange(1 << 30), "sched": None}


def with_how(spec, how):
    s = copy.deepcopy(spec)
    s["templates"][0]["text"] = s["templates"][0]["text"].replace("HOW", how)
    return s


def calm(spec):
    s = with_how(spec, "none")
    for i in s["inputs"]:
        if isinstance(i["data"], str):
            i["data"] = i["data"].replace("boom", "calm")
    return s


def write_calm_files(spec):
    for path, text in spec["files"].items():
        with open(path, "wb") as f:
            f.write(text.replace("boom", "calm").encode())


def reload(p, spec, **how):
    """the documented way to use the object again"""
    p.clear_result()
    p.clear_input()
    for i in spec["inputs"]:
        scenario.add_input(p, i)
    p.parse(**how)
    return core.canon(p.result())


def fresh(spec, scratch):
    import os
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    mod = scenario.import_ttp()

    def go():
        p = scenario.build(mod.ttp, spec)
        write_calm_files(spec)
        return reload(p, spec, one=True)
    return scenario.outcome(go)


def run(case, env):
    spec = case["spec"]
    ref = core.isolated(scenario.run_plain, with_how(spec, "none"), env.scratch("ref"))
    ref2 = core.isolated(fresh, calm(spec), env.scratch("ref2"))
    if ref[0] != "ok" or ref2[0] != "ok":
        return env.harness("reference run: {} {}".format(ref, ref2))
    ref, ref2 = ref[1], ref2[1]
    if ref[0] != "ok" or ref2[0] != "ok":
        return env.skip("scenario raises in one process: {} {}".format(ref[1], ref2[1]))

    def after(p, k, mod):
        if p is None:
            return None
        k.faults = []
        k.draining = False
        s = calm(spec)
        write_calm_files(s)
        a = scenario.outcome(reload, p, s, one=True)
        b = scenario.outcome(reload, p, s, multi=True)
        k.drain()
        return [a, b, len(k.leftovers())]

    out = core.isolated(M.run_sim, with_how(spec, spec["how"]), case["kernel"], case["sched_seed"], case["sched"], case["faults"],
                        case["mode"], env.scratch("sim"), after, timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "no progress in real time")
    if out[0] != "ok":
        return env.harness("simulated run: {}".format(out))
    res = out[1]
    fired = res["fired"]
    if spec["how"] != "none":
        fired["function_" + spec["how"]] = 1
    env.add(res, nontrivial=any(not k.startswith("early") for k in fired))
    if res["violation"]:
        return env.violation(*res["violation"], res=res)
    got = res["outcome"]
    if got[0] == "ok" and got[1] != ref[1]:
        return env.violation("returned-wrong-results", core.first_diff(ref[1], got[1]), res=res)
    if got[0] != "ok" and not fired and ref[-1]:
        return env.violation("raises-without-fault", "{}: {}".format(got[1], got[2]), res=res)
    aft = res.get("after")
    if aft:
        if aft[0] != ref2:
            return env.violation("object-damaged-single", "after {}: {}".format(got[:2] if got[0] != "ok" else "ok", diff(ref2, aft[0])), res=res)
        if aft[1] != ref2 and (ref[-1] or aft[1][0] == "ok"):
            return env.violation("object-damaged-multi", "after {}: {}".format(got[:2] if got[0] != "ok" else "ok", diff(ref2, aft[1])), res=res)
        if aft[2]:
            return env.violation("leftover-workers", "after reuse", res=res)
    res["extra"] = {"outcome_" + got[0]: 1}
    env.info["extra"] = res["extra"]
    return env.ok(res)


def diff(a, b):
    if a[0] == b[0] == "ok":
        return core.first_diff(a[1], b[1])
    return "expected {} got {}".format(core.short(str(a)), core.short(str(b)))


def shrink(case):
    fs = case["faults"]
    for i in range(len(fs)):
        yield dict(case, faults=fs[:i] + fs[i + 1:])
    if case["spec"]["how"] != "none":
        yield dict(case, spec=dict(case["spec"], how="none"))
    yield from c01.shrink(case)


setup = c01.setup
