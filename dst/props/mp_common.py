"""Workloads and the simulated run shared by C01, C02 and C15."""
import os
import random
import tempfile

from .. import core, procs, scenario, workload


def cust_datum(r, boom=None):
    out = []
    for _ in range(r.randrange(1, 4)):
        out.append("cust {} n {}\n".format(r.choice(["x", ""]) + workload.w(r), r.randrange(20)))
    return "".join(out)


def gen_spec(r, custom=0.35, phases=True, kinds=True):
    """a scenario whose features are all available in multi-process mode"""
    wl = workload.make(r) if r.random() < 0.7 else workload.from_corpus(r)
    spec = {"vars": dict(wl.get("vars") or {}), "dpk": bool(wl.get("dpk")) or r.random() < 0.25,
            "functions": [], "files": {}, "inputs": [], "lookups": [], "features": list(wl["features"])}
    text = wl["template"]
    data = list(wl["data"])
    structured = False
    if r.random() < custom and "<template" not in text and not wl["features"][0].startswith("corpus"):
        k = r.choice(sorted(scenario.CUSTOM))
        reg, snippet = scenario.CUSTOM[k]
        if r.random() < 0.3 and reg[1] in scenario.ALT:
            # added twice, the last one counts
            both = [reg, reg + [scenario.ALT[reg[1]]]]
            r.shuffle(both)
            spec["functions"] += both
        else:
            spec["functions"].append(reg)
        text = text + "\n" + snippet
        spec["features"].append("custom:" + k)
        data = [d + cust_datum(r) for d in data]
    corpus = wl["features"][0].startswith("corpus")
    if not corpus and r.random() < 0.2:
        # an input tag with functions, groups and its own name
        spec["functions"].append(["input", "cf_input"])
        text = '<input name="in1" load="python" {}>\nurl = "nowhere"\n</input>\n'.format(
            r.choice(['cf_input=""', 'functions="cf_input"', 'macro="inmac"'])) + text
        text += "\n<macro>\ndef inmac(data):\n    return data if isinstance(data, str) else '\\n'.join(str(i) for i in data)\n</macro>"
        spec["features"].append("input_tag")
        structured = False
    if not corpus and r.random() < 0.25:
        # two templates side by side
        wl2 = workload.make(r, nfeat=1, output=0.2, group_output=0)
        spec["features"] += ["tmpl2"] + wl2["features"]
        if r.random() < 0.5 and "cf_output" not in text:
            text = '<template name="t1">\n{}\n</template>\n<template name="t2">\n{}\n</template>'.format(text, wl2["template"])
            spec["templates"] = [{"text": text}]
        else:
            spec["templates"] = [{"text": text, "name": "A"}, {"text": wl2["template"], "name": "B"}]
        data += wl2["data"]
    else:
        spec["templates"] = [{"text": text}]
    if r.random() < 0.3:
        spec["vars"]["extra"] = r.choice(["v1", ["a", "b"], {"k": "v"}])
    if r.random() < 0.2:
        spec["lookups"].append(["lk9", "{'alpha1': 'one', 'core2': {'x': 1}}"])
    if r.random() < 0.15:
        spec["late_vars"] = {"late": workload.w(r), "site0": "late_site"}
    nin = 0
    for i, d in enumerate(data):
        inp = {"data": d}
        k = r.random()
        if kinds and k < 0.25:
            path = "in/f{}.txt".format(i)
            spec["files"][path] = d
            inp = {"data": path}
        elif kinds and k < 0.32:
            for j in range(2):
                spec["files"]["dir{}/d{}.txt".format(i, j)] = d if j == 0 else workload.noise(r) + d
            inp = {"data": "dir{}".format(i)}
        if r.random() < 0.25:
            inp["name"] = r.choice(["in1", "in2"])
        elif "input_tag" in spec["features"] and r.random() < 0.6:
            inp["name"] = "in1"
        if len(spec["templates"]) > 1 and r.random() < 0.4:
            inp["template"] = r.choice(["A", "B"])
        spec["inputs"].append(inp)
    if "input_tag" in spec["features"] and r.random() < 0.5:
        spec["inputs"].append({"data": ["cust {} n 1".format(workload.w(r)), "iface0 x"], "name": "in1"})
    spec["phases"] = ["parse"]
    if phases and r.random() < 0.3 and "output" not in wl["flags"]:
        spec["phases"] = r.choice([["parse", "parse"], ["parse", "clear", "parse"],
                                   ["parse", {"input": {"data": data[0] if data else "x 1\n"}}, "parse"],
                                   ["parse", {"vars": {"site0": "changed"}}, "clear", "parse"]])
    return spec


def gen_kernel(r):
    return {"cpus": r.choice([1, 2, 2, 3, 3, 4, 5, 8]), "pipe_cap": r.choice([None, None, None, 1, 2, 4]),
            "uniform": r.choice([0.05, 0.2, 0.5, 1.0]), "spurious": r.choice([0, 2, 6])}


def run_sim(spec, kcfg, seed, replay, faults, mode, scratch, after=None):
    """in a forked child: the scenario under the process simulator"""
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    ch = core.Choices(seed, replay)
    k = procs.Kernel(ch, cpus=kcfg["cpus"], faults=faults, pipe_cap=kcfg["pipe_cap"],
                     uniform=kcfg["uniform"], spurious=kcfg["spurious"])
    mod = scenario.import_ttp()
    k.activate()
    res = {"violation": None}
    try:
        try:
            state = {}

            def go():
                p = state["p"] = scenario.build(mod.ttp, spec)
                outs = []
                for ph in spec.get("phases", ["parse"]):
                    scenario.phase(p, ph, **({"multi": True} if mode == "multi" else {}))
                    outs.append(core.canon(p.result()))
                return outs
            res["outcome"] = scenario.outcome(go)
            k.drain()
            left = k.leftovers()
            if left:
                raise core.Violation("leftover-workers", k.describe())
            if k.stuck_feeders():
                raise core.Violation("cannot-exit", "items for workers that ended stay queued, the client cannot exit")
            if after is not None:
                res["after"] = after(state.get("p"), k, mod)
        except core.Violation as v:
            res["violation"] = [v.kind, v.detail]
    finally:
        res["choices"] = ch.taken
        res["log"] = k.loghash()
        res["nlog"] = len(k.log)
        res["fired"] = dict(k.fired)
        res["now"] = k.now
        res["workers"] = len(k.workers)
        res["steps"] = k.steps
        res["tail"] = [list(map(str, e)) for e in k.log[-25:]]
        k.deactivate()
    return res
