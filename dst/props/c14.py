"""C14: the result of one datum does not depend on the other data being parsed."""
import os
import random

from .. import core, scenario, workload
from . import c04

ID = "C14"
RULE = ("seed -> a template, a pool of datums (texts, files, structures, failing ones) and a history of 1-5 parses of one parser over chosen, repeated and reordered "
        "members of the pool, some ended by an error at a seeded call; every result is compared with a new parser's for that datum alone (templates that carry state: "
        "with the run over the datums up to it); non-trivial: at least two different datums in one history gave data; distinct by hash of history and outcomes")
REAL = ["whole ttp package", "real files in a scratch directory"]
STUB = ["order and failure of calls (seeded)", "expected results: single-datum runs of new parsers"]
QUICK, THOROUGH = 2000, 60000


def many_groups(r):
    """9-40 groups, inputs bound to some of them by name"""
    n = r.choice([9, 10, 12, 17, 20, 34, 40])
    same = r.random() < 0.5
    gs = []
    for i in range(n):
        # groups that match the same lines: which of them comes first matters
        gs.append('<group name="{}n{}">\n{} {{{{ v{} }}}} {{{{ x | let("w", "{}") }}}}\n opt {{{{ o{} }}}}\n</group>'.format(
            "abc"[i % 3] if r.random() < 0.5 else "", i, "line" if same and r.random() < 0.6 else "line" + "abcdefgh"[i % 8], i % 2, i, i % 3))
    names = ["".join(g.split('"')[1]) for g in gs]
    data = ["".join("{} {} {}\n".format(r.choice(["line"] + ["line" + c for c in "abcdefgh"]), workload.w(r), workload.w(r)) + (" opt {}\n".format(workload.w(r)) if r.random() < 0.4 else "")
                    for _ in range(r.randrange(1, 9))) for _ in range(4)]
    return {"template": "\n".join(gs), "data": data, "flags": [], "features": ["many_groups"], "groups": names}


def defaults_and_shared(r):
    """default values, variables and lookup rows that become part of several results"""
    t = """<vars name="meta">
lst = ["a", "b"]
dct = {"k": ["v"], "n": {"m": 1}}
txt = "t"
</vars>
<vars>
hid = ["h"]
num = 5
</vars>
<lookup name="L" load="python">
{"alpha": {"o": "x", "l": ["1"], "n": {"p": "q"}}, "core": {"o": "y", "l": ["2"]}}
</lookup>
<group name="s*"%s>
row {{ k | lookup("L", add_field="d") }}
 val {{ v | joinmatches(",") | default(["dflt"]) }}
 add {{ a | to_list | joinmatches | default(["la"]) }}
 num {{ n | to_int | default(0) }}
{{ sl | set("hid") }}
{{ sm | set("lst") }}
 <group name="sub%s">
 sub {{ q | default({"dd": []}) }}
  leaf {{ e | to_list | joinmatches | default([]) }}
 </group>
</group>
""" % (r.choice(["", ' default="none"', ' del="k"', ' sformat="string=\'{k}-x\', add_field=\'kk\'"', ' expand=""', ' set="num, numb"', ' to_int="n"', ' macro="grow"' if False else '']), r.choice(["", "*", "**"]))
    if r.random() < 0.4:
        t = t.replace("{{ k | lookup", '{{ k | let("w", "x") | lookup')
    def d():
        out = ""
        for _ in range(r.randrange(1, 5)):
            out += "row {}\n".format(r.choice(["alpha", "core", "none"]))
            for _ in range(r.randrange(3)):
                out += r.choice([" val {}\n", " add {}\n", " num 7\n", " sub {}\n  leaf {}\n"]).replace("{}", workload.w(r))
        return out
    return {"template": t, "data": [d() for _ in range(4)], "flags": [], "features": ["shared_values"]}


def gen(seed, tier):
    r = random.Random(seed)
    k = r.random()
    spec = {"vars": {}, "functions": [], "groups": None}
    carry = False
    if k < 0.2:
        wl = many_groups(r)
    elif k < 0.35:
        wl = defaults_and_shared(r)
    elif k < 0.5:
        wl = workload.make(r, carry=True, output=0, group_output=0, commands=0.2)
        carry = "carry" in wl["flags"]
    elif k < 0.65:
        wl = workload.from_corpus(r, forbid=("time", "carry", "glookup", "per_template", "output"))
        spec["vars"] = wl.get("vars") or {}
        spec["dpk"] = bool(wl.get("dpk"))
    else:
        wl = workload.make(r, carry=False, output=0, group_output=0, commands=0.2)
        if r.random() < 0.4:
            c = r.choice(["match", "newfield", "group", "macro", "variable"])
            fn, snippet = scenario.CUSTOM[c]
            wl["template"] += "\n" + snippet
            wl["data"] = [d + "cust {} n {}\n".format(r.choice(["x", ""]) + workload.w(r), r.randrange(20)) for d in wl["data"]]
            spec["functions"].append(list(fn))
    pool = []
    for d in list(wl["data"]) or ["none\n"]:
        pool += [d]
        if r.random() < 0.3 and len(pool) < 7:
            pool.append(workload.vary(r, d) or "x\n")
    pool += r.sample(["nothing that matches\n", "\n", "!\n!\n"], 1) if r.random() < 0.3 else []
    pool = list(dict.fromkeys(pool))[:7]
    text = wl["template"]
    fail = not wl["features"][0].startswith("corpus") and r.random() < 0.4
    if fail:
        text += """
<macro>
def fails(data):
    if "boom" in data:
        raise ValueError(data)
    return data
</macro>
<group name="fl*">
fails {{ c | macro("fails") }} {{ d | upper }}
</group>
"""
        for i in range(len(pool)):
            if r.random() < 0.5:
                pool[i] += "fails {} {}\n".format("boom" if r.random() < 0.4 else workload.w(r), workload.w(r))
        pool = list(dict.fromkeys(pool))
    case = {"template": text, "spec": spec, "pool": [{"text": d, "file": "f{}.txt".format(i) if r.random() < 0.2 else None} for i, d in enumerate(pool)], "carry": carry}
    case["inputs"] = {n: (r.sample(wl["groups"], r.randrange(2, min(9, len(wl["groups"])))) if wl.get("groups") and r.random() < 0.8 else None) for n in ("Default_Input", "in1", "in2", "in3")}
    names = ["Default_Input"] * 4 + ["in1", "in2", "in3"] if not carry else ["Default_Input"]
    h = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
            h.append(["add", r.randrange(len(pool)), r.choice(names)])
        h.append(["parse"])
        if r.random() < 0.3 and not carry:
            h.append(["parse"])
        for op in (["clear_input"], ["clear_result"]):
            if r.random() < (0.75 if op[0] == "clear_input" else 0.4) or carry:
                h.append(op)
    if carry:
        # one parse only: what is kept over several parses is not promised
        h = h[:h.index(["parse"]) + 1]
    case["history"] = h
    return case


def builder(case):
    T = scenario.import_ttp().ttp
    p = T(vars=dict(case["spec"]["vars"]), dynamic_path_key_to_int=bool(case["spec"].get("dpk")), log_level="CRITICAL")
    for scope, name in case["spec"]["functions"]:
        p.add_function(scenario.FUNCS[name], scope=scope, name=name)
    p.add_template(case["template"])
    return p


def add(p, case, i, name):
    d = case["pool"][i]
    kw = {"input_name": name}
    if case["inputs"].get(name):
        kw["groups"] = list(case["inputs"][name])
    p.add_input(d["file"] or d["text"], **kw)


def prepare(case, d):
    os.chdir(d)
    for x in case["pool"]:
        if x["file"]:
            with open(x["file"], "w", encoding="utf-8") as f:
                f.write(x["text"])


def outcome(p):
    res = p.result()
    return [[core.canon(x) for x in t] if isinstance(t, list) else "not a list" for t in res]


def alone(case, members, d, cleared=False):
    """a new parser over these members only; cleared: without the inputs that the template defines"""
    prepare(case, d)
    p = builder(case)
    if cleared:
        p.clear_input()
    for i, name in members:
        add(p, case, i, name)
    o = scenario.outcome(p.parse, one=True)
    return (o[0], o[1] if o[0] == "raised" else None, outcome(p) if o[0] == "ok" else None)


def play(case, d):
    prepare(case, d)
    p = builder(case)
    out = []
    for op in case["history"]:
        if op[0] == "add":
            add(p, case, op[1], op[2])
        elif op[0] == "parse":
            o = scenario.outcome(p.parse, one=True)
            # after an error only the object's next life is promised, see C06
            if o[0] == "raised":
                p.clear_result()
            out.append((o[0], o[1] if o[0] == "raised" else None, outcome(p) if o[0] == "ok" else None))
        elif op[0] == "clear_input":
            p.clear_input()
        elif op[0] == "clear_result":
            p.clear_result()
    return out


def run(case, env):
    memo = {}

    def single(i, name):
        k = (case["pool"][i]["file"] or case["pool"][i]["text"], tuple(case["inputs"].get(name) or ()), name, cleared)
        if k not in memo:
            memo[k] = core.isolated(alone, case, [(i, name)], env.scratch("run"), cleared, timeout=env.timeout)
        return memo[k]

    base = core.isolated(alone, case, [], env.scratch("run"), timeout=env.timeout)
    if base[0] != "ok":
        return env.harness("empty run: {}".format(base))
    if base[1][0] != "ok" or any(base[1][2]):
        return env.skip("template brings its own data")
    got = core.isolated(play, case, env.scratch("run"), timeout=env.timeout)
    if got[0] == "timeout":
        return env.violation("hang", "history does not end")
    if got[0] != "ok":
        return env.violation("call-failed", str(got[-1])[-700:])
    got = got[1]
    nt = len(base[1][2])
    # a template's own inputs come first and are gone once inputs are cleared
    own = '<input name="Default_Input"' in case["template"]
    cleared = False
    inputs, results, k = {"Default_Input": []} if own else {}, [], 0
    checked, distinct, raised = 0, set(), 0
    verdict = None
    for op in case["history"]:
        if op[0] == "add":
            l = inputs.setdefault(op[2], [])
            key = case["pool"][op[1]]["file"] or case["pool"][op[1]]["text"]
            if all((case["pool"][i]["file"] or case["pool"][i]["text"]) != key for i in l):
                l.append(op[1])
        elif op[0] == "clear_input":
            inputs = {}
            cleared = own
        elif op[0] == "clear_result":
            results = []
        elif op[0] == "parse":
            g = got[k]
            k += 1
            members = [(i, name) for name in inputs for i in inputs[name]]
            if case["carry"]:
                want = []
                for j in range(len(members)):
                    pre = core.isolated(alone, case, members[:j + 1], env.scratch("run"), cleared, timeout=env.timeout)
                    if pre[0] != "ok":
                        return env.harness("prefix run: {}".format(pre))
                    want.append(pre[1] if pre[1][0] == "raised" else (pre[1][0], None, [[t[j]] if len(t) > j else ["missing"] for t in pre[1][2]]))
            else:
                want = []
                for i, name in members:
                    s = single(i, name)
                    if s[0] != "ok":
                        return env.harness("single run: {}".format(s))
                    want.append(s[1])
            if any(w[0] == "ok" and any(len(t) != 1 for t in w[2]) for w in want):
                return env.skip("template does not give one result per datum")
            bad = [w for w in want if w[0] == "raised"]
            if bad:
                raised += 1
                results = []
                if g[0] != "raised":
                    verdict = ("failure-lost", "parse of {} returned although datum alone raises {}".format(members, bad[0][1]))
                elif g[1] not in [b[1] for b in bad]:
                    verdict = ("other-failure", "parse of {} raised {} not {}".format(members, g[1], bad[0][1]))
                if verdict:
                    break
                continue
            if g[0] == "raised":
                verdict = ("fails-together", "parse of {} raised {} although each datum alone parses".format(members, g[1]))
                break
            results = results + [w[2] for w in want]
            if len(g[2]) != nt:
                verdict = ("templates", "{} template results not {}".format(len(g[2]), nt))
                break
            for t in range(nt):
                exp = [w[t][0] for w in results]
                if len(exp) != len(g[2][t]):
                    verdict = ("count", "template {} has {} results, expected {}".format(t, len(g[2][t]), len(exp)))
                    break
                for j, (a, b) in enumerate(zip(exp, g[2][t])):
                    checked += 1
                    if len(a) > 4:
                        distinct.add(a)
                    if a != b:
                        verdict = ("depends-on-other-data", "template {} result {}: {}".format(t, j, core.first_diff(a, b)))
                        break
                if verdict:
                    break
            if verdict:
                break
    env.add({"log": core.digest(repr(case["history"]), repr(got)), "steps": len(case["history"]), "fired": {"failing-datum": raised} if raised else {},
             "extra": {"results_checked": checked, "raised": raised, "carry": int(case["carry"])}}, nontrivial=len(distinct) >= 2)
    if verdict:
        return env.violation(*verdict)
    return env.ok()


def shrink(case):
    h = case["history"]
    for i in range(len(h) - 1, -1, -1):
        yield dict(case, history=h[:i] + h[i + 1:])
    used = {op[1] for op in h if op[0] == "add"}
    for i, d in enumerate(case["pool"]):
        if i not in used:
            continue
        if d["file"]:
            yield dict(case, pool=case["pool"][:i] + [dict(d, file=None)] + case["pool"][i + 1:])
        lines = d["text"].split("\n")
        n = max(1, len(lines) // 4)
        for a in range(0, len(lines), n):
            if len(lines) > 1:
                yield dict(case, pool=case["pool"][:i] + [dict(d, text="\n".join(lines[:a] + lines[a + n:]) or "x")] + case["pool"][i + 1:])
    if not case["inputs"] or not any(case["inputs"].values()):
        from .. import session
        for t in session.shrink_template(case["template"]):
            yield dict(case, template=t)


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
