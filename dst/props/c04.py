"""C04: parser objects of one process are independent of one another."""
import os
import random

from .. import core, scenario, session

ID = "C04"
RULE = ("seed -> 2-4 parser scripts (templates, custom functions of equal names, shared caller objects, files, failing calls) and an "
        "interleaving of their API calls; non-trivial: control passed between parsers at least twice while both were alive; "
        "distinct by hash of the interleaved call sequence and outcomes")
REAL = ["whole ttp package incl. plugin loading, cache file, file outputs"]
STUB = ["order of the API calls of the parsers (seeded scheduler)"]
QUICK, THOROUGH = 2000, 30000


def gen(seed, tier):
    r = random.Random(seed)
    n = r.choice([2, 2, 2, 3, 4])
    shared = {"v0": {"extra": "shared", "lst": ["a"], "deep": {"k": ["v"]}, "gfun": "gethostname"}, "v1": {"site0": "s1"}}
    use = sorted(shared) if r.random() < 0.6 else []
    like = {} if r.random() < 0.4 else None
    scripts = [session.gen_script(r, "p{}".format(i), shared=use, like=like)[0] for i in range(n)]
    k = r.random()
    if k < 0.15:
        # equal scripts side by side
        scripts[-1] = [list(op) for op in scripts[0]]
    elif k < 0.55:
        # the same data under other arguments, lookups, variables and macros
        scripts[-1] = session.twin(r, scripts[0])
        if n > 2 and r.random() < 0.5:
            scripts[1] = session.twin(r, scripts[0])
    return {"scripts": scripts, "shared": shared, "sched_seed": r.randrange(1 << 30), "sched": None,
            "cache": r.choice(["warm", "warm", "warm", "none", "none", "cold"])}


def cache(kind, scratch):
    """the state of the function cache: there, not yet there, or impossible to write"""
    if kind != "warm":
        os.environ["TTPCACHEFOLDER"] = os.path.join(scratch, "cache") if kind == "cold" else os.path.join(scratch, "nowhere", "cache")
        if kind == "cold":
            os.makedirs(os.environ["TTPCACHEFOLDER"])


def interleave(case, scratch):
    os.makedirs(scratch, exist_ok=True)
    cache(case["cache"], scratch)
    dirs = []
    for i in range(len(case["scripts"])):
        d = os.path.join(scratch, "s{}".format(i))
        os.makedirs(d)
        dirs.append(d)
    ch = core.Choices(case["sched_seed"], case["sched"])
    shared = session.shared_objects(case["shared"])
    before = core.canon(shared)
    ss = [session.Session(s, shared) for s in case["scripts"]]
    cur, log, sw = 0, [], 0
    while True:
        live = [i for i, s in enumerate(ss) if not s.done()]
        if not live:
            break
        k = ch.pick(len(live), prefer=lambda g: live.index(cur) if cur in live and g.random() < 0.5 else g.randrange(len(live)))
        if live[k] != cur:
            sw += 1
        cur = live[k]
        os.chdir(dirs[cur])
        o = ss[cur].step()
        log.append((cur, ss[cur].script[ss[cur].i - 1][0], core.digest(repr(o[:2]))))
    return {"outs": [s.out for s in ss], "kept": [s.finish() for s in ss], "switches": sw,
            "shared": None if core.canon(shared) == before else core.first_diff(before, core.canon(shared)),
            "choices": ch.taken, "log": core.digest(repr(log)), "steps": len(log), "tail": [list(map(str, e)) for e in log[-30:]]}


def run(case, env):
    refs = []
    for i, s in enumerate(case["scripts"]):
        # every script runs at the same path as in the interleaved run
        r = core.isolated(session.run_alone, s, case["shared"], os.path.join(env.scratch("run"), "s{}".format(i)), timeout=env.timeout)
        if r[0] != "ok":
            return env.harness("reference run: {}".format(r))
        refs.append(r[1])
    out = core.isolated(interleave, case, env.scratch("run"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "interleaved run does not end")
    if out[0] != "ok":
        return env.harness("interleaved run: {}".format(out))
    res = out[1]
    res["extra"] = {"calls": res["steps"], "switches": res["switches"],
                    "raising_calls": sum(o[0] == "raised" for s in res["outs"] for o in s)}
    env.add(res, nontrivial=res["switches"] >= 2)
    for i, ref in enumerate(refs):
        for j, (a, b) in enumerate(zip(ref["out"], res["outs"][i])):
            if a != b:
                return env.violation("depends-on-other-parser", "parser {} call {} {}: {}".format(i, j, core.short(str(case["scripts"][i][j]), 200), diff(a, b)), res=res)
        if ref["kept"] is None and res["kept"][i]:
            return env.violation("result-changed-by-other-parser", "parser {}: {}".format(i, res["kept"][i]), res=res)
    if res["shared"]:
        return env.violation("caller-object-modified", res["shared"], res=res)
    return env.ok(res)


def diff(a, b):
    if a[0] == b[0] == "ok":
        return core.first_diff(a[1], b[1])
    return "expected {} got {}".format(core.short(str(a), 300), core.short(str(b), 300))


def shrink(case):
    if case["cache"] != "warm":
        yield dict(case, cache="warm")
    yield from session.shrink_scripts(case)


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
