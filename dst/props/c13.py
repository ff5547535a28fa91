"""C13: results do not depend on hash seed, directory order, process history, cache state or time."""
import gc
import io
import os
import random
import shutil
import sys

from .. import clock, core, fs, scenario, session, workload, zygote
from . import c04

ID = "C13"
RULE = ("seed -> a script of API calls (templates, files, directories, outputs, structures and formats) run three times in interpreters of different hash seeds, each with "
        "its own directory order, cache state, earlier use of the process, garbage collection and clock; non-trivial: the runs differ in at least two of these and at "
        "least one result held data; distinct by hash of all outcomes and conditions")
REAL = ["whole ttp package", "hash randomisation (separate interpreters)", "file system content", "function cache file", "plugin loading"]
STUB = ["order in which directories list their entries, time.* and datetime.now (simulated)"]
QUICK, THOROUGH = 1600, 40000
POOL = 6
RAGGED = ["csv", "table", "tabulate"]


def extra(r):
    """templates whose results pass through sets, sorting or generated text"""
    k = r.choice(["ragged", "dirs", "macros", "glob", "structs", "lookups", "multi"])
    if k == "ragged":
        f = r.choice(RAGGED)
        cols = r.choice(["abcdefgh", "abcdABCD", "aAbBcCzZ"])
        opt = r.choice(["", ' missing="-"', ' key="k"', ' headers="c, a, b"'])
        if f == "tabulate":
            opt = r.choice(["", ' headers="a, b, c"', ' format_attributes="tablefmt=\'grid\'"'])
        t = '<group name="rows.{{ k }}">\nrow {{ k }}\n' + "".join(" {0} {{{{ {0} }}}}\n".format(x) for x in cols) + "</group>\n" if 'key="k"' in opt else \
            '<group name="rows*">\nrow {{ k }}\n' + "".join(" {0} {{{{ {0} }}}}\n".format(x) for x in cols) + "</group>\n"
        t += '<output format="{}" returner="{}" path="rows"{}/>'.format(f, r.choice(["self", "terminal"]), opt)
        data = ["".join("row {}\n".format(workload.w(r)) + "".join(" {} {}\n".format(x, workload.w(r)) for x in r.sample(cols, r.randrange(5))) for _ in range(r.randrange(1, 5)))
                for _ in range(r.randrange(1, 4))]
        return [["new", {}], ["tmpl", t]] + [["input", {"data": d}] for d in data] + [["parse"], ["result"], ["result", {"structure": "flat_list"}]]
    if k == "dirs":
        names = r.sample(["b.txt", "a.txt", "Z.txt", "c.log", "10.txt", "9.txt", "x.conf", "noext", ".hid.txt", "é.txt", "a b.txt"], r.randrange(2, 9))
        s = [["write", "D/data/" + n, "item {} {}\n".format(workload.w(r), n.replace(" ", "_"))] for n in names]
        s.insert(r.randrange(len(s)), ["write", "D/data/sub/in.txt", "item inner x\n"])
        att = r.choice(["", 'extensions = ["txt"]', 'extensions = ["txt", "log"]', 'filters = ["[ab]"]', 'extensions = ["txt"]\nfilters = ["^9", "^a"]'])
        t = '<input load="python">\nurl = "data/"\n{}\n</input>\n<vars>\nfn = "getfilename"\n</vars>\n<group name="i*">\nitem {{{{ a }}}} {{{{ b }}}}\n{{{{ f | set("fn") }}}}\n</group>'.format(att)
        how = r.choice(["base", "input", "both"])
        if how == "input":
            t = t[t.index("<vars>"):]
        s += [["new", {} if how == "input" else {"base_path": "D/"}], ["tmpl", t]]
        if how != "base":
            s.append(["input", {"data": "D/data/"}])
        return s + [["parse"], ["result"], ["result", {"structure": "flat_list", "format": "json"}]]
    if k == "macros":
        n = r.randrange(2, 5)
        t = "".join("<macro>\ndef m{}(data):\n    return data + '_{}'\n\ndef same(data):\n    return data + '-{}'\n</macro>\n".format(i, i, i) for i in range(n))
        order = list(range(n))
        r.shuffle(order)
        t += '<group name="m*">\nmac {{ a | ' + " | ".join('macro("m{}")'.format(i) for i in order) + ' | macro("same") }} {{ b | macro("same") }}\n</group>\n'
        s = [["new", {}], ["tmpl", t], ["input", {"data": "".join("mac {} {}\n".format(workload.w(r), workload.w(r)) for _ in range(4))}], ["parse"], ["result"]]
        if r.random() < 0.5:
            s.insert(1, ["fn", "macro", "same", "cf_macro"])
        return s
    if k == "glob":
        gs = ["g{}".format(c) for c in "abcde"]
        line = r.choice(["{0}", "{0}", "ga"])
        star = r.choice(["", "*"])
        t = "".join(('<group name="{0}' + star + '">\n' + line + ' {{{{ v | record("last") }}}}\n{{{{ o | set("last") }}}}\n</group>\n').format(g) for g in gs)
        ins = [g + star for g in r.sample(gs, r.randrange(1, 5))]
        t = '<input name="one" groups="{}"/>\n'.format(", ".join(ins)) + t if r.random() < 0.6 else t
        d = "".join("{} {}\n".format(r.choice(gs), workload.w(r)) for _ in range(9))
        return [["new", {}], ["tmpl", t], ["input", dict({"data": d, "name": "one"}, **({"groups": [g + star for g in r.sample(gs, 3)]} if r.random() < 0.5 else {}))],
                ["input", {"data": d}], ["input", {"data": d, "name": "two", "groups": [g + star for g in r.sample(gs, r.randrange(1, 4))]}], ["parse"], ["result"], ["result", {"structure": "dictionary"}]]
    if k == "structs":
        t = "".join('<template name="t{0}" results="{1}">\n<group name="x{0}.{{{{ k }}}}">\nkey {{{{ k }}}} {{{{ v }}}}\n</group>\n</template>\n'.format(
            n, r.choice(["per_input", "per_template"])) for n in r.sample("zyxab", 3))
        d = ["".join("key {} {}\n".format(workload.w(r), workload.w(r)) for _ in range(5)) for _ in range(2)]
        return [["new", {}], ["tmpl", t]] + [["input", {"data": x}] for x in d] + [["parse"], ["result", {"structure": "dictionary", "format": r.choice(["json", "yaml", "pprint", "raw"])}],
                                                                                    ["result", {"structure": "list", "format": "yaml"}], ["result", {"structure": "flat_list"}], ["get_template"]]
    if k == "lookups":
        rows = r.sample(workload.WORDS, 8)
        t = '<lookup name="L" load="csv">\nid,own,site\n' + "".join("{},{},{}\n".format(x, workload.w(r), workload.w(r)) for x in rows) + "</lookup>\n"
        t += "<lookup name=\"P\" load=\"python\">\n{'al': {'x': 1}, 'a': 'short', 'alpha': 'long', 'ph': 'mid'}\n</lookup>\n"
        t += '<group name="l*">\nas {{ a | lookup("L", add_field="d") }} {{ b | rlookup("P", add_field="r") }} {{ c | gpvlookup("G", add_field="g") }}\n</group>\n'
        t += "<lookup name=\"G\" load=\"python\">\n{'zz': ['*a*'], 'aa': ['*1*', 'b*'], 'mm': ['*'], 'dd': ['core*', '*2']}\n</lookup>"
        t = t.replace('gpvlookup("G", add_field="g")', 'gpvlookup("G", add_field="g"{})'.format(r.choice(["", ", record_all=True", ", multimatch=True"][:1])))
        return [["new", {}], ["tmpl", t], ["input", {"data": "".join("as {} {} {}\n".format(r.choice(rows), workload.w(r), workload.w(r)) for _ in range(6))}], ["parse"], ["result"]]
    # several parsers' worth of inputs and outputs in one template
    t = '<vars name="info">\na = 1\nz = "gethostname"\nm = {"k": [1, 2]}\n</vars>\n<vars name="info2" load="ini">\n[one]\nq = 1\nb = 2\n[two]\nx = y\n</vars>\n'
    t += "".join('<input name="{0}">\nurl = ["d/{0}/"]\n</input>\n'.format(n) for n in r.sample(["i2", "i1", "zz"], 2))
    t += '<group name="g*" input="i2">\nkey {{ k }}\n</group>\n<group name="h*">\nkey {{ hk | let("w", "z") }}\n</group>\n'
    t += "".join('<output name="{}" format="{}" returner="file" url="out" filename="{}"/>\n'.format(n, f, n + ".txt") for n, f in zip(r.sample(["o3", "o1", "o2"], 2), r.sample(["json", "yaml", "pprint", "csv"], 2)))
    s = [["write", "B/d/{}/{}.txt".format(n, m), "key {}\n".format(workload.w(r))] for n in ("i1", "i2", "zz") for m in r.sample("cab", 2)]
    r.shuffle(s)
    return s + [["new", {"base_path": "B/"}], ["tmpl", t], ["parse"], ["result", {"format": "yaml"}], ["cat", "out"], ["load"]]


def gen(seed, tier):
    r = random.Random(seed)
    like = {}
    script = extra(r) if r.random() < 0.4 else session.gen_script(r, "main", corpus=0.35, like=like)[0]
    hs = r.sample(range(POOL), 3)
    runs = []
    for i in range(3):
        c = {"hash": 11 + hs[i] * 7, "order": r.choice([0, 0, 1, 2, 3]) if i else 0, "cache": r.choice(["warm", "warm", "warm", "cold", "none"]) if i else "warm",
             "before": [], "gc": r.choice([None, None, 0, 7]) if i else None, "clock": r.choice([None, None, r.randrange(1, 4000000000)]) if i else None, "own": i == 0}
        if i and r.random() < 0.5:
            for _ in range(r.choice([1, 1, 2])):
                c["before"].append(extra(r) if r.random() < 0.3 else session.gen_script(r, "main" if r.random() < 0.5 else "b", corpus=0.3,
                                                                                                      like=like if r.random() < 0.4 else None)[0])
        k = r.random()
        if i and k < 0.15:
            c["before"] = c["before"] + [[list(o) for o in script]]
        elif i and k < 0.4:
            c["before"] = c["before"] + [session.twin(r, script)]
        runs.append(c)
    return {"scripts": [script], "runs": runs}


class Tee(io.StringIO):
    pass


def perm(n):
    def order(names):
        if n == 1:
            return list(reversed(names))
        return sorted(names, key=lambda x: core.digest("ord{}".format(n), x))
    return order if n else None


def play(case, i, d):
    c = case["runs"][i]
    cache = os.environ["TTPCACHEFOLDER"]
    os.environ["TTPCACHEFOLDER"] = os.path.join(d, "cache")
    os.makedirs(os.path.join(d, "cache"))
    mod = scenario.import_ttp()
    if c["cache"] == "warm":
        src = os.path.join(cache, "ttp_dict_cache.pickle")
        if os.path.isfile(src):
            shutil.copy(src, os.path.join(d, "cache"))
    elif c["cache"] == "none":
        os.rmdir(os.path.join(d, "cache"))
        os.environ["TTPCACHEFOLDER"] = os.path.join(d, "nowhere", "cache")
    if c["gc"] == 0:
        gc.disable()
    elif c["gc"]:
        gc.set_threshold(c["gc"], 2, 2)
    sim = fs.Sim(d, lambda op, p, n: None)
    sim.order = perm(c["order"])
    # the plugin directories are listed in any order too
    sim.roots.append(os.path.realpath(os.path.join(core.REPO, "ttp")))
    with fs.active(sim):
        ck = clock.active(clock.Clock(c["clock"] * 10 ** 9, lambda k: random.Random(k.ns).randrange(-10 ** 9, 10 ** 10) + (2 * 10 ** 9 if k.ns < 3 * 10 ** 9 else 0))) if c["clock"] else None
        if ck:
            ck.__enter__()
        try:
            for j, b in enumerate(c["before"]):
                os.makedirs(os.path.join(d, "before{}".format(j)))
                os.chdir(os.path.join(d, "before{}".format(j)))
                s = session.Session(b, {"v0": {"extra": "shared"}})
                while not s.done():
                    s.step()
            os.makedirs(os.path.join(d, "main"))
            os.chdir(os.path.join(d, "main"))
            out, sys.stdout = sys.stdout, Tee()
            try:
                s = session.Session(case["scripts"][0], {})
                while not s.done():
                    s.step()
                text = sys.stdout.getvalue()
            finally:
                sys.stdout = out
        finally:
            if ck:
                ck.__exit__(None, None, None)
    return {"out": s.out, "stdout": text}


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
    fs.install()
    clock.install()


def run(case, env):
    got = []
    for i, c in enumerate(case["runs"]):
        d = env.scratch("run")
        r = zygote.get(c["hash"]).run("dst.props.c13", "play", (case, i, d), env.timeout)
        if r[0] == "timeout":
            return env.violation("hang", "run {} does not end: {}".format(i, c))
        if r[0] != "ok":
            return env.harness("run {}: {}".format(i, r))
        got.append(r[1])
    script = case["scripts"][0]
    ref = got[0]
    diffs = sum(1 for k in ("order", "cache", "gc", "clock", "before") if any(c[k] != case["runs"][0][k] for c in case["runs"][1:]))
    data = any(op[0] == "result" and o[0] == "ok" and len(o[1]) > 12 for op, o in zip(script, ref["out"]))
    log = core.digest(repr(got), repr([{k: v for k, v in c.items() if k != "before"} for c in case["runs"]]))
    fired = {}
    for c in case["runs"][1:]:
        for k in ("order", "gc", "clock", "before"):
            if c[k]:
                fired[k] = fired.get(k, 0) + 1
        fired["cache-" + c["cache"]] = fired.get("cache-" + c["cache"], 0) + 1
        fired["hash-seed"] = fired.get("hash-seed", 0) + 1
    env.add({"log": log, "fired": fired, "steps": len(script) * len(got), "extra": {"calls": len(script) * len(got), "raising_calls": sum(o[0] == "raised" for o in ref["out"])}},
            nontrivial=data and diffs >= 2)
    for i, g in enumerate(got[1:], 1):
        what = {k: v for k, v in case["runs"][i].items() if k != "before"}
        what["before"] = len(case["runs"][i]["before"])
        for j, (a, b) in enumerate(zip(ref["out"], g["out"])):
            if a != b:
                return env.violation("not-reproducible", "call {} {} in run {} {}: {}".format(j, core.short(str(script[j]), 200), i, what, c04.diff(a, b)))
        if ref["stdout"] != g["stdout"]:
            return env.violation("printed-text-differs", "run {} {}: {}".format(i, what, core.first_diff(ref["stdout"], g["stdout"])))
    return env.ok()


def shrink(case):
    rs = case["runs"]
    if len(rs) > 2:
        for i in range(1, len(rs)):
            yield dict(case, runs=rs[:i] + rs[i + 1:])
    for i in range(1, len(rs)):
        for k, v in (("before", []), ("order", 0), ("cache", "warm"), ("gc", None), ("clock", None), ("hash", rs[0]["hash"])):
            if rs[i][k] != v:
                yield dict(case, runs=rs[:i] + [dict(rs[i], **{k: v})] + rs[i + 1:])
        for j in range(len(rs[i]["before"])):
            yield dict(case, runs=rs[:i] + [dict(rs[i], before=rs[i]["before"][:j] + rs[i]["before"][j + 1:])] + rs[i + 1:])
        for sub in session.shrink_scripts({"s": rs[i]["before"]}, "s"):
            if rs[i]["before"]:
                yield dict(case, runs=rs[:i] + [dict(rs[i], before=sub["s"])] + rs[i + 1:])
    yield from session.shrink_scripts(case)
