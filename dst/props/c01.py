"""C01: parallel parsing equals single-process parsing, in input order."""
import random

from .. import core, scenario
from . import mp_common as M

ID = "C01"
RULE = ("seed -> templates/data/functions/inputs (feature generator and corpus), CPU count, queue capacity, schedule; "
        "non-trivial: at least 2 workers took part and 2 datums were parsed in multi-process mode; distinct by event-log hash")
REAL = ["ttp parser, templates, worker class and parse dispatch", "fork, pickling of tasks and results", "macro and plugin loading in workers"]
STUB = ["process scheduler, queues' pipes and feeder threads, CPU count, timeouts (simulated)"]
QUICK, THOROUGH = 1600, 40000


def gen(seed, tier):
    r = random.Random(seed)
    spec = M.gen_spec(r)
    mode = "multi"
    if r.random() < 0.15:
        mode = "auto"
        if r.random() < 0.15 and len(spec["inputs"]) >= 2:
            for i in spec["inputs"][:2]:
                if isinstance(i["data"], str) and i["data"] not in spec["files"] and not i["data"].startswith("dir"):
                    i["pad"] = 105000
        else:
            spec["threshold"] = r.choice([-1, 0, 10, 200])
    return {"spec": spec, "kernel": M.gen_kernel(r), "mode": mode, "sched_seed": r.randrange(1 << 30), "sched": None}


def run(case, env):
    ref = core.isolated(scenario.run_plain, case["spec"], env.scratch("ref"))
    if ref[0] != "ok":
        return env.harness("reference run: {}".format(ref))
    ref = ref[1]
    if ref[0] != "ok":
        return env.skip("scenario raises in one process: " + ref[1])
    out = core.isolated(M.run_sim, case["spec"], case["kernel"], case["sched_seed"], case["sched"], [], case["mode"],
                        env.scratch("sim"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "no progress in real time")
    if out[0] != "ok":
        return env.harness("simulated run: {}".format(out))
    res = out[1]
    env.add(res, nontrivial=res["workers"] >= 2 and res["steps"] > 6)
    if res["violation"]:
        return env.violation(*res["violation"], res=res)
    got = res["outcome"]
    if got[0] != "ok" and not ref[-1]:
        return env.skip("a result cannot be transferred between processes: " + got[1])
    if got[0] != "ok":
        return env.violation("raises-only-in-multi", "{}: {}".format(got[1], got[2]), res=res)
    if got[1] != ref[1]:
        return env.violation("results-differ", core.first_diff(ref[1], got[1]), res=res)
    return env.ok(res)


def shrink(case):
    yield from shrink_spec(case)
    yield from shrink_kernel(case)


def shrink_spec(case):
    spec = case["spec"]
    n = len(spec["inputs"])
    for i in range(n):
        s = dict(spec, inputs=spec["inputs"][:i] + spec["inputs"][i + 1:])
        yield dict(case, spec=s)
    if len(spec.get("phases", [])) > 1:
        yield dict(case, spec=dict(spec, phases=["parse"]))
    for key in ("vars", "late_vars"):
        if spec.get(key):
            yield dict(case, spec=dict(spec, **{key: {}}))
    if spec.get("lookups"):
        yield dict(case, spec=dict(spec, lookups=[]))
    if len(spec["templates"]) > 1:
        for i in range(len(spec["templates"])):
            yield dict(case, spec=dict(spec, templates=spec["templates"][:i] + spec["templates"][i + 1:]))
    # drop data blocks
    for i, inp in enumerate(spec["inputs"]):
        d = inp["data"]
        if isinstance(d, str) and d not in spec["files"] and d.count("\n") > 2:
            lines = d.split("\n")
            half = len(lines) // 2
            for part in (lines[:half], lines[half:]):
                if part:
                    ni = dict(inp, data="\n".join(part) or "x")
                    yield dict(case, spec=dict(spec, inputs=spec["inputs"][:i] + [ni] + spec["inputs"][i + 1:]))
    # drop groups of the template
    for ti, t in enumerate(spec["templates"]):
        parts = t["text"].split("\n<group ")
        for gi in range(1, len(parts)):
            end = parts[gi].rfind("</group>")
            if end < 0 or "</template>" in parts[gi]:
                continue
            txt = "\n<group ".join(parts[:gi] + [None] + parts[gi + 1:]) if False else "\n<group ".join(parts[:gi]) + parts[gi][end + 8:] + (
                "\n<group " + "\n<group ".join(parts[gi + 1:]) if parts[gi + 1:] else "")
            nt = spec["templates"][:ti] + [dict(t, text=txt)] + spec["templates"][ti + 1:]
            yield dict(case, spec=dict(spec, templates=nt))


def shrink_kernel(case):
    k = case["kernel"]
    if k["cpus"] > 1:
        yield dict(case, kernel=dict(k, cpus=k["cpus"] - 1))
    if k["pipe_cap"] is not None:
        yield dict(case, kernel=dict(k, pipe_cap=None))
    if k["spurious"]:
        yield dict(case, kernel=dict(k, spurious=0))


def setup():
    from .. import procs
    procs.install()
    scenario.warm_libs()
    scenario.import_ttp()
