"""C05: parser objects used in different threads do not disturb each other."""
import collections
import json
import os
import random
import sys

from .. import core, scenario, session, threads

ID = "C05"
RULE = ("seed -> 2-4 parser scripts, each run by its own thread, cache file present or absent, and a schedule that may switch "
        "threads at every executed line (or byte code) of ttp and macro code; non-trivial: at least 3 switches happened inside "
        "ttp code; distinct by hash of the sequence of switch points")
REAL = ["whole ttp package incl. plugin loading, cache file, file outputs", "real threads and real file system"]
STUB = ["thread scheduler (baton, seeded), threading locks"]
QUICK, THOROUGH = 2000, 30000


def gen(seed, tier):
    r = random.Random(seed)
    n = r.choice([2, 2, 2, 3, 4])
    shared = {"v0": {"extra": "shared", "lst": ["a"], "deep": {"k": ["v"]}, "gfun": "gethostname"}, "v1": {"site0": "s1"}}
    use = sorted(shared) if r.random() < 0.4 else []
    so = r.random() < 0.5
    like = {} if r.random() < 0.35 else None
    scripts = [session.gen_script(r, "p{}".format(i), shared=use, shared_out=so, like=like, fout=0.5 if so else 0.2)[0] for i in range(n)]
    if r.random() < 0.4:
        # the same template and functions with other data: the same plugins at the same time
        ren = ("_p0", "_p{}".format(n - 1))
        scripts[-1] = session.twin(r, scripts[0], ren) if r.random() < 0.6 else json.loads(json.dumps(scripts[0]).replace(*ren))
    return {"scripts": scripts, "shared": shared, "cold": r.random() < 0.3, "gaps": r.choice([3, 15, 60, 200, 800, 3000]),
            "pcall": r.choice([0, 0, 0.02, 0.2]), "opcodes": r.random() < 0.12,
            "hot": [r.randrange(1 << 20), r.choice([5, 12, 30, 60] + ["shared"] * 6)] if r.random() < 0.7 else None, "sched_seed": r.randrange(1 << 30), "sched": None}


def prepare(case, scratch):
    os.chdir(scratch)
    if case["cold"]:
        os.environ["TTPCACHEFOLDER"] = os.path.join(scratch, "cache")
        os.makedirs(os.environ["TTPCACHEFOLDER"])


def run_threads(case, scratch):
    prepare(case, scratch)
    ch = core.Choices(case["sched_seed"], case["sched"])
    shared = session.shared_objects(case["shared"])
    before = core.canon(shared)
    ss = [session.Session(s, shared) for s in case["scripts"]]
    sch = threads.Scheduler(ch, case["gaps"], case["pcall"], case["opcodes"], case.get("hot"))

    def body(s):
        def f():
            while not s.done():
                s.step()
        return f
    res = {"violation": None}
    try:
        sch.run([body(s) for s in ss])
    except core.Violation as v:
        res["violation"] = [v.kind, v.detail]
    for t in sch.threads:
        if t.error is not None:
            raise core.HarnessError("thread {} ended with {!r}".format(t.n, t.error))
    res.update({"outs": [s.out for s in ss], "kept": [s.finish() for s in ss] if not res["violation"] else [],
                "shared": None if core.canon(shared) == before else core.first_diff(before, core.canon(shared)),
                "switches": sch.switches, "choices": ch.taken, "log": sch.loghash(), "steps": sch.lines, "now": sch.now,
                "tail": [list(map(str, e)) for e in sch.log[-30:]]})
    return res


def alone(script, shared, scratch):
    called = threads.Called()
    sys.setprofile(called)
    try:
        out = session.run_alone(script, shared, scratch)
    finally:
        sys.setprofile(None)
    out["called"] = sorted(called.keys)
    return out


def hot_functions(case, refs):
    """one or two of the functions which more than one of the parsers call"""
    r = random.Random(case["hot"][0])
    n = collections.Counter(tuple(k) for ref in refs for k in ref["called"])
    common = sorted(k for k in n if n[k] > 1)
    dirs = sorted({k[0] for k in common})
    out = []
    for _ in range(r.choice([1, 1, 2])):
        if dirs:
            d = r.choice(dirs)
            out.append(list(r.choice([k for k in common if k[0] == d])[1:]))
    return [case["hot"][0], out]


def run(case, env):
    refs = []
    pick = case.get("hot") and case["hot"][1] == "shared"
    for i, s in enumerate(case["scripts"]):
        r = core.isolated(alone if pick else session.run_alone, s, case["shared"], env.scratch("run"), timeout=env.timeout)
        if r[0] != "ok":
            return env.harness("reference run: {}".format(r))
        refs.append(r[1])
    out = core.isolated(run_threads, dict(case, hot=hot_functions(case, refs)) if pick else case, env.scratch("run"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "threads make no progress")
    if out[0] != "ok":
        return env.harness("threads run: {}".format(out))
    res = out[1]
    res["extra"] = {"traced_lines": res["steps"], "switches": res["switches"]}
    res["steps"] = res["switches"]
    env.add(res, nontrivial=res["switches"] >= 3 + len(case["scripts"]))
    if res["violation"]:
        return env.violation(*res["violation"], res=res)
    for i, ref in enumerate(refs):
        for j, (a, b) in enumerate(zip(ref["out"], res["outs"][i])):
            if a != b:
                return env.violation("disturbed-by-other-thread", "parser {} call {} {}: {}".format(
                    i, j, core.short(str(case["scripts"][i][j]), 200), diff(a, b)), res=res)
        if ref["kept"] is None and res["kept"][i]:
            return env.violation("result-changed-by-other-thread", "parser {}: {}".format(i, res["kept"][i]), res=res)
    if res["shared"]:
        return env.violation("caller-object-modified", res["shared"], res=res)
    return env.ok(res)


def diff(a, b):
    if a[0] == b[0] == "ok":
        return core.first_diff(a[1], b[1])
    return "expected {} got {}".format(core.short(str(a), 300), core.short(str(b), 300))


def shrink(case):
    if case["cold"]:
        yield dict(case, cold=False)
    if case["opcodes"]:
        yield dict(case, opcodes=False)
    if case.get("hot"):
        yield dict(case, hot=None)
    yield from session.shrink_scripts(case)


def setup():
    scenario.warm_libs()
    threads.install()
    scenario.import_ttp()
