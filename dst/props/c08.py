"""C08: input files are parsed whole and exactly once, or the failure is reported."""
import json
import os
import random
import re

from .. import core, fs, scenario, session, workload

ID = "C08"
RULE = ("seed -> a directory tree, a template and inputs naming files and directories in every documented way; run once with seeded listing "
        "order, buffer sizes and short reads, then again with one or two faults at chosen file operations of loading or parsing; "
        "non-trivial: a fault fired (or the listing order or a read was changed); distinct by hash of the operation log and faults")
REAL = ["whole ttp package", "io text and buffer layers, real files below them"]
STUB = ["raw file reads, opens, stat and directory listings (fault injecting seam)"]
QUICK, THOROUGH = 2400, 60000
NAMES = ["a.txt", "b.txt", "B.txt", "c.log", "data_1.txt", "data_2.log", "data_10.txt", "sp ace.txt", "\u00fcn\u00ef.txt", ".hid.txt", "noext", "d.txt.bak", "z.conf", "0.txt", "d.oldtxt", "e.TXT", "f.txt.log", "g.logtxt", "h.conf~", "notxt"]


def gen(seed, tier):
    r = random.Random(seed)
    wl = workload.make(r, carry=False, output=0.15, group_output=0.1, only=[k for k in workload.FEATURES if k != "getters"], datums=r.choice([2, 3, 4, 5]), commands=0)
    files, text = {}, {}
    dirs = r.sample(["data", "data/sub", "more", "deep/er"], r.choice([1, 1, 2, 3]))
    if r.random() < 0.08:
        # long paths are paths too
        dirs[-1] = "/".join(r.choice("lmn") * r.choice([90, 240]) for _ in range(r.choice([2, 4, 9])))
    space = r.random() < 0.06
    i = 0
    for d in dirs:
        for n in r.sample(NAMES, r.choice([1, 2, 2, 3, 4])):
            t = wl["data"][i % len(wl["data"])] if wl["data"] else "none\n"
            i += 1
            if r.random() < 0.3:
                t += r.choice(["caf\u00e9 \u4e2d\u6587 ", "\U0001f600 x", "plain"]) * r.randrange(1, 40) + "\n"
            if r.random() < 0.12:
                t += "filler line number \u00e9\u00e8 {}\n".format(i) * r.randrange(300, 1500) + (wl["data"][0] if wl["data"] else "")
            k = r.random()
            if k < 0.1:
                t = t.replace("\n", "\r\n")
            elif k < 0.13:
                t = t.replace("\n", "\r")
            elif k < 0.16:
                t = "\ufeff" + t
            elif k < 0.2:
                t = t.rstrip("\n")
            b = t.encode("utf-8")
            if r.random() < 0.04:
                b = r.choice([b + b"\xff\xfe\n", b"\xc3" + b, b + "\u00e9".encode()[:1]])
            files[d + "/" + n + (" " if space and n.endswith("t") else "")] = b.hex()
    if r.random() < 0.2:
        files["data/link.txt -> nowhere"] = ""
    paths = [f for f in files if "->" not in f]
    # large files are kept short in the case: filler lines are put in when the file is made
    pads = {}
    for f in paths:
        if r.random() < 0.06:
            pads[f] = [r.choice([9000, 66000, 66000, 140000, 270000, 1100000]), r.choice([70, 900, 5000]), r.random() < 0.3]
    alld = dirs + [d + "/" for d in dirs]
    specs = []
    mode = r.choice(["add", "add", "tag", "tag", "mix", "group", "data"])
    if space and mode == "group":
        mode = "add"
    base = r.random() < 0.25 and mode in ("tag", "group")

    def loc():
        return r.choice([r.choice(paths), r.choice(alld), r.choice(alld)])

    def tag():
        s = {"how": "tag", "urls": [loc() for _ in range(r.choice([1, 1, 2]))], "load": r.choice(["yaml", "python", "json"])}
        if r.random() < 0.45:
            s["ext"] = r.choice(["txt", ["txt"], ["log", "txt"], "log", ["conf"]])
        if r.random() < 0.35:
            s["filt"] = r.choice(["data", [r"data_\d"], ["a", "c"], r"^[a-m]", [r"data_\d+\.", "z"]])
        if r.random() < 0.5:
            s["name"] = r.choice(["in1", "in2"])
        return s

    def add():
        s = {"how": "add", "path": loc()}
        if r.random() < 0.35:
            s["name"] = r.choice(["in1", "in2"])
        return s
    if mode == "group":
        specs = [{"how": "group", "path": loc()}]
    elif mode == "data":
        specs = [{"how": "data", "path": loc()}]
    elif mode == "tag":
        specs = [tag() for _ in range(r.choice([1, 1, 2]))]
    elif mode == "add":
        specs = [add() for _ in range(r.choice([1, 1, 2, 3]))]
    else:
        specs = [tag(), add()]
    nf = r.choice([0, 1, 1, 1, 1, 2])
    return {"files": files, "pads": pads, "template": wl["template"], "specs": specs, "base": base, "tmpl_file": r.random() < 0.35, "order_seed": r.randrange(1 << 30),
            "short": r.choice([0, 0, 0.3, 0.9]), "bufsize": r.choice([None, None, 16, 61, 512]),
            "faults": [{"frac": r.random(), "kind": r.random(), "stage": r.choice(["parse", "parse", "parse", "any"])} for _ in range(nf)]}


def render(case):
    """template text with its input tags"""
    t = case["template"]
    pre = ""
    for s in case["specs"]:
        if s["how"] == "group":
            t = re.sub(r"^<group ", lambda m: '<group input="{}" '.format(s["path"]), t, flags=re.M)
        if s["how"] == "tag":
            f = [("url", s["urls"] if len(s["urls"]) > 1 else s["urls"][0])]
            if "ext" in s:
                f.append(("extensions", s["ext"]))
            if "filt" in s:
                f.append(("filters", s["filt"]))
            if s["load"] == "json":
                body = json.dumps(dict(f))
            elif s["load"] == "python":
                body = "\n".join("{} = {!r}".format(k, v) for k, v in f)
            else:
                body = "\n".join("{}: {}".format(k, json.dumps(v)) for k, v in f)
            pre += '<input {}load="{}">\n{}\n</input>\n'.format('name="{}" '.format(s["name"]) if "name" in s else "", s["load"], body)
    return pre + "\n" + t


def expand(path, ext=None, filt=None):
    if os.path.isfile(path):
        return [path]
    ext = [ext] if isinstance(ext, str) else ext
    filt = [filt] if isinstance(filt, str) else filt
    out = []
    for f in sorted(os.listdir(path)):
        if not os.path.isfile(os.path.join(path, f)):
            continue
        if ext and not any(f.endswith("." + e) for e in ext):
            continue
        if filt and not any(re.search(x, f) for x in filt):
            continue
        out.append(os.path.join(path, f))
    return out


def expected_paths(case):
    inputs = {}
    for s in case["specs"]:
        if s["how"] == "tag":
            name = s.get("name", "Default_Input")
            got = [p for u in s["urls"] for p in expand(u, s.get("ext"), s.get("filt"))]
            if name in inputs:
                for p in got:
                    if p not in inputs[name]:
                        inputs[name].append(p)
            else:
                inputs[name] = got
    for s in case["specs"]:
        if s["how"] == "group":
            inputs[s["path"]] = expand(s["path"])
        elif s["how"] in ("add", "data"):
            got = expand(s["path"])
            if got:
                cur = inputs.setdefault(s.get("name", "Default_Input"), [])
                for p in got:
                    if p not in cur:
                        cur.append(p)
    return [p for l in inputs.values() for p in l]


def make_files(case, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    for p, h in case["files"].items():
        if "->" in p:
            a, b = p.split(" -> ")
            os.makedirs(os.path.dirname(a), exist_ok=True)
            os.symlink(b, a)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        b = bytes.fromhex(h)
        if p in case["pads"]:
            size, width, odd = case["pads"][p]
            line = b"filler " + ("\u00e9" if odd else "e").encode() * (width - 8 - 7 * odd) + b"\n"
            b = b + b"\n" + line * (size // len(line) + 1) + b
        with open(p, "wb") as f:
            f.write(b)
    for s in case["specs"]:
        for u in s.get("urls", [s.get("path")]):
            if not os.path.exists(u):
                raise core.HarnessError("input {} does not exist".format(u))


def reference(case, scratch):
    """results of the decoded contents, given as text to fresh parsers"""
    make_files(case, scratch)
    T = scenario.import_ttp().ttp
    texts = []
    paths = expected_paths(case)
    for p in paths:
        with open(p, "rb") as f:
            b = f.read()
        try:
            texts.append(b.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n"))
        except UnicodeDecodeError:
            return {"raises": True, "paths": paths}

    def go():
        p = T(log_level="CRITICAL")
        p.add_template(case["template"])
        for i, t in enumerate(texts):
            if os.path.exists(t[:1000] or "?"):
                raise core.HarnessError("text is a path")
            p.add_input(t, input_name="i{}".format(i))
        p.parse(one=True)
        return p.result()
    return {"raises": False, "res": list(scenario.outcome(go)[:2]), "paths": paths}


def play(case, faults, scratch):
    make_files(case, scratch)
    # the text of a datum's file may hold anything, but ttp_templates and plugin files are elsewhere
    r = random.Random(case["order_seed"])
    text = render(case)
    if case["tmpl_file"]:
        with open("tmpl.ttp", "w", encoding="utf-8") as f:
            f.write(text)
    T = scenario.import_ttp().ttp
    plan = fs.Plan(scratch, faults)
    changed = [0, 0]

    def hook(op, path, size):
        a = plan(op, path, size)
        if a is None and op == "read" and r.random() < case["short"]:
            changed[0] += 1
            return ("short", r.choice([1, 2, 3, 7, 100, 4097]) if size > 400 else max(1, size // 2))
        return a
    sim = fs.Sim(scratch, hook)
    sim.bufsize = case["bufsize"]

    def order(names):
        n = list(names)
        r.shuffle(n)
        changed[1] += n != names
        return n
    sim.order = order
    marks = {}

    def load():
        kw = {"base_path": scratch + "/"} if case["base"] else {}
        tm = "tmpl.ttp" if case["tmpl_file"] else text
        d = [s["path"] for s in case["specs"] if s["how"] == "data"]
        if d:
            p = T(data=d[0], template=tm, log_level="CRITICAL", **kw)
        else:
            p = T(log_level="CRITICAL", **kw)
            p.add_template(tm)
        for s in case["specs"]:
            if s["how"] == "add":
                p.add_input(s["path"], **({"input_name": s["name"]} if "name" in s else {}))
        return p

    box = {}

    def go():
        box["p"] = load()
        marks["parse"] = plan.count
        box["p"].parse()
        return box["p"].result()
    again = None
    with fs.active(sim):
        o = scenario.outcome(go)
        if o[0] == "raised" and "p" in box and plan.fired and not any(f[0] in ("vanish", "replace", "todir") for f in plan.fired):
            sim.hook = fs.Plan(scratch)

            def retry():
                box["p"].clear_result()
                box["p"].parse()
                return box["p"].result()
            again = list(scenario.outcome(retry)[:2])
    return {"out": list(o[:2]), "why": o[2] if len(o) > 2 else "", "log": plan.log, "mark": marks.get("parse", 0), "fired": plan.fired, "again": again, "changed": changed}


def choose(case, log, mark):
    """concrete faults for the operations the fault-free run made"""
    out = []
    for f in case["faults"]:
        if "index" in f:
            out.append(f)
            continue
        cand = [(i + 1, op) for i, (op, rel, size) in enumerate(log)
                if (i >= mark and op in ("open-r", "read", "stat", "listdir")) or (i < mark and f["stage"] == "any" and op in ("open-r", "read", "listdir"))]
        if not cand:
            continue
        i, op = cand[int(f["frac"] * len(cand)) % len(cand)]
        kinds = {"open-r": [["vanish"], ["vanish"], ["err", "EACCES"], ["err", "EIO"], ["err", "EMFILE"], ["err", "ESTALE"], ["err", "ENOENT"], ["replace"], ["todir"]],
                 "read": [["err", "EIO"], ["err", "ESTALE"]], "stat": [["vanish"], ["err", "EACCES"], ["err", "EIO"], ["err", "ENOENT"]],
                 "listdir": [["err", "EIO"], ["err", "EACCES"]]}[op]
        if i <= mark:
            kinds = [k for k in kinds if k[0] == "err"]
        out.append({"index": i, "do": kinds[int(f["kind"] * len(kinds)) % len(kinds)]})
    return out


def replace(path):
    with fs._real["open"](path, "wb") as f:
        f.write(b"interface x\n\xc3\x28\xff\n")


def todir(path):
    fs._vanish(path)
    fs._real["os_mkdir"](path)


def run(case, env):
    ref = core.isolated(reference, case, env.scratch("run"), timeout=env.timeout)
    if ref[0] != "ok":
        return env.harness("reference: {}".format(ref))
    ref = ref[1]
    a = core.isolated(play, case, None, env.scratch("run"), timeout=env.timeout)
    if a[0] != "ok":
        return env.harness("run without faults: {}".format(a))
    a = a[1]
    faults = choose(case, a["log"], a["mark"])
    fired = {"short_read": a["changed"][0], "listing_order": a["changed"][1]}
    env.add({"log": core.digest(repr(a["log"])), "fired": fired, "steps": len(a["log"]), "tail": []}, nontrivial=any(a["changed"]))
    tail = {"tail": [list(map(str, x)) for x in a["log"]][-30:]}
    bad = judge(ref, a["out"], [])
    if bad:
        return env.violation(bad[0], bad[1] + " " + a["why"], res=tail)
    if not faults:
        return env.ok()
    b = core.isolated(play, case, faults, env.scratch("run"), timeout=env.timeout)
    if b[0] == "timeout":
        return env.violation("hang", "parse does not end after {}".format(faults))
    if b[0] != "ok":
        return env.harness("run with faults: {}".format(b))
    b = b[1]
    for f in b["fired"]:
        k = "{}@{}".format(f[0], f[1])
        fired[k] = fired.get(k, 0) + 1
    env.add({"log": core.digest(repr(a["log"]), repr(b["log"]), repr(b["fired"])), "fired": fired, "steps": len(a["log"]) + len(b["log"])},
            nontrivial=bool(b["fired"]) or any(a["changed"]))
    tail = {"tail": [list(map(str, x)) for x in b["log"]][-20:] + [["fired"] + [str(x) for x in f] for f in b["fired"]]}
    if not b["fired"]:
        bad = judge(ref, b["out"], [])
    else:
        if b["out"][0] == "raised":
            if b["again"] is not None:
                bad = judge(ref, b["again"], [])
                if bad:
                    bad = ("not-parsed-after-recovery", bad[1])
        else:
            bad = judge(ref, b["out"], b["fired"])
            if bad:
                bad = ("silent-data-loss", "after {}: {}".format(b["fired"], bad[1]))
    if bad:
        return env.violation(bad[0], bad[1], res=tail)
    return env.ok()


def judge(ref, out, fired):
    if ref["raises"]:
        if out[0] != "raised":
            return "undecodable-file-ignored", "a file that is not UTF-8 was accepted: {}".format(core.short(out[1], 300))
        return None
    if out == ref["res"]:
        return None
    if out[0] == ref["res"][0] == "ok":
        return "wrong-results", "files {}: {}".format(ref["paths"], core.first_diff(ref["res"][1], out[1]))
    return "wrong-outcome", "files {}: expected {} got {}".format(ref["paths"], core.short(str(ref["res"]), 300), core.short(str(out), 300))


def shrink(case):
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    used = set()
    for s in case["specs"]:
        used |= set(s.get("urls", [s.get("path")]))
    for p in list(case["files"]):
        rest = {k: v for k, v in case["files"].items() if k != p}
        if p not in used and all(any(k == u or k.startswith(u.rstrip("/") + "/") for k in rest) for u in used):
            yield dict(case, files=rest)
    for i in range(len(case["specs"])):
        if len(case["specs"]) > 1:
            yield dict(case, specs=case["specs"][:i] + case["specs"][i + 1:])
    for p in case["pads"]:
        yield dict(case, pads={k: v for k, v in case["pads"].items() if k != p})
    for p, h in case["files"].items():
        b = bytes.fromhex(h)
        if len(b) > 40:
            for part in (b[:len(b) // 2], b[len(b) // 2:]):
                yield dict(case, files=dict(case["files"], **{p: part.hex()}))
    for k, v in (("short", 0), ("bufsize", None), ("tmpl_file", False), ("base", False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for t in session.shrink_template(case["template"]):
        if "<group" in t:
            yield dict(case, template=t)


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
    fs.install()
    act = fs.Plan.action

    def action(self, do, op, path, size):
        if do[0] == "replace":
            return ("do", replace)
        if do[0] == "todir":
            return ("do", todir)
        return act(self, do, op, path, size)
    fs.Plan.action = action
