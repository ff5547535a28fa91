"""C23: templates and settings kept in files are loaded whole and in place, or loading fails visibly."""
import json
import logging
import os
import random

from .. import core, fs, scenario, workload

ID = "C23"
RULE = ("seed -> a template split at random into a main part (text, file, directory or name in TTP_TEMPLATES_DIR), extended templates (nested, in groups, filtered, plain lines) and included "
        "variable and lookup files; loaded with seeded short reads, buffer sizes and listing order, then with changed files of equal size and time, then with one or two faults at chosen file "
        "operations of loading; results are compared with the same template in one piece; non-trivial: a read was shortened, an order changed or a fault fired; distinct by hash of operations and faults")
REAL = ["whole ttp package", "io text and buffer layers, real files below them"]
STUB = ["raw file reads, opens, stat and directory listings (fault injecting seam)"]
QUICK, THOROUGH = 4000, 60000
MACRO = "<macro>\ndef {0}(text):\n    # {1}\n    return text.replace('@@', 'kw').replace('@!', '@')\n</macro>"
AB = "abcdefghijklmnopqrstuvwxyz"


def nm(i):
    return AB[i // 26 % 26] + AB[i % 26]


class Make:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.files = 0

    def uid(self):
        self.n += 1
        return nm(self.n)

    def path(self, ext=".txt"):
        self.files += 1
        r = self.r
        return r.choice(["t", "t/sub", "parts", "in c"]) + "/" + r.choice(["x", "Y", "p\u00e9"]) + nm(self.files) + ext

    # groups of the own kind: ["grp", tag, attributes, parts], a part is a line or a node
    def group(self, depth=0):
        r, u = self.r, self.uid()
        ind = " " * depth
        parts = ["{}kw{} {{{{ name }}}}\n".format(ind, u)]
        for _ in range(r.choice([0, 1, 1, 2])):
            parts.append("{} opt{}{} {{{{ o{} }}}}\n".format(ind, u, r.choice("xyz"), self.uid()))
        for _ in range(r.choice([0, 0, 1, 2]) if depth < 3 else 0):
            x = r.random()
            if x < 0.5:
                parts.append(self.group(depth + 1))
            else:
                parts.append(self.nested(depth + 1))
            if r.random() < 0.5:
                parts.append("{} end{}{} {{{{ e{} }}}}\n".format(ind, u, r.choice("xyz"), self.uid()))
        return ["grp", r.choice(["group", "group", "g", "grp"]), {"name": "qq{}{}".format(u, r.choice(["", "*", "*"]))}, parts]

    def nested(self, depth):
        """an extend tag within a group"""
        r = self.r
        if r.random() < 0.25:
            kids = ["{} ln{} {{{{ l{} }}}}\n".format(" " * depth, self.uid(), self.uid()) for _ in range(r.choice([1, 2]))]
            return ["ext", self.path(), kids, {}, False]
        kids = [self.group(depth) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.2 and depth < 3:
            kids.insert(r.randrange(len(kids) + 1), self.nested(depth))
        f = {}
        if r.random() < 0.3:
            f["groups"] = self.pick(kids)
        return ["ext", self.path(), kids, f, r.random() < 0.3]

    def pick(self, kids):
        gs = [k for k in kids if k[0] == "grp"]
        k = self.r.sample(range(len(gs)), self.r.randrange(0, len(gs) + 1))
        return [str(i) if self.r.random() < 0.3 else gs[i][2]["name"] for i in k] or ["nosuch"]

    def include(self):
        """variables or a lookup table with a file"""
        r, u = self.r, self.uid()
        rows = [("k" + self.uid(), workload.w(r)) for _ in range(4)]
        cut = r.choice([0, 0, 2])
        if r.random() < 0.5:
            load = r.choice(["python", "yaml", "json", "ini"])
            f = {"python": lambda rs: "".join('{} = "qq{}"\n'.format(a, b) for a, b in rs), "yaml": lambda rs: "".join("{}: qq{}\n".format(a, b) for a, b in rs),
                 "json": lambda rs: json.dumps({a: "qq" + b for a, b in rs}), "ini": lambda rs: "".join("[{}]\nz = qq{}\n".format(a, b) for a, b in rs)}[load]
            at = {"load": load} if load != "python" or r.random() < 0.5 else {}
            if r.random() < 0.4:
                at["name"] = "qqv" + u
            node = ["inc", "vars", at, "", self.path("." + load), "", load]
            use = "".join("{{{{ u{} | set(\"{}\") }}}}\n".format(a, a) for a, _ in rows)
        else:
            load = r.choice(["csv", "csv", "python", "yaml", "json", "ini"])
            f = {"csv": lambda rs: ("id,own\n" if rs is not rows[cut:] else "") + "".join("{},qq{}\n".format(a, b) for a, b in rs), "python": lambda rs: "".join('{} = "qq{}"\n'.format(a, b) for a, b in rs),
                 "yaml": lambda rs: "".join("{}: qq{}\n".format(a, b) for a, b in rs), "json": lambda rs: json.dumps({a: "qq" + b for a, b in rs}),
                 "ini": lambda rs: "".join("[{}]\nz = qq{}\n".format(a, b) for a, b in rs)}[load]
            node = ["inc", "lookup", {"name": "lk" + u, "load": load}, "", self.path("." + load), "", load]
            use = None
        if load == "json":
            cut = 0
        if load == "csv":
            node[3] = ("id,own\n" + "".join("{},qq{}\n".format(a, b) for a, b in rows[:cut])) if cut else ""
            node[5] = ("" if cut else "id,own\n") + "".join("{},qq{}\n".format(a, b) for a, b in rows[cut:])
        else:
            node[3] = f(rows[:cut]) if cut else ""
            node[5] = f(rows[cut:])
        if use is None:
            g = ["grp", "group", {"name": "qq{}*".format(self.uid())}, ['lu{} {{{{ a | lookup("lk{}", add_field="fnd") }}}}\n'.format(u, u)]]
            g.append(["lu{} {}".format(u, a) for a, _ in rows])
        else:
            g = ["grp", "group", {"name": "qq{}*".format(self.uid())}, ["va{} {{{{ a }}}}\n".format(u) + use]]
            g.append(["va{} x".format(u)])
        return node, g

    def leaf(self):
        """an input or an output; its name can be filtered by"""
        r, u = self.r, self.uid()
        if r.random() < 0.5:
            at = {"name": "qqi" + u, "load": "text"}
            return ["leaf", r.choice(["input", "in"]), at, "in{} {}\nin{} {}\n".format(u, workload.w(r), u, workload.w(r))], \
                ["grp", "group", {"name": "qq{}*".format(u)}, ["in{} {{{{ a }}}}\n".format(u)]]
        at = {"name": "qqo" + u, "format": r.choice(["raw", "json", "pprint", "yaml"])}
        return ["leaf", r.choice(["output", "out"]), at, ""], None

    def split(self, nodes, level=0):
        """moves runs of top level nodes into files"""
        r = self.r
        level = 3 if level and any(n[0] == "tpl" for n in nodes) else level
        out, i = [], 0
        while i < len(nodes):
            if r.random() < (0.5 if level == 0 else 0.3) and level < 3:
                k = r.randrange(1, min(4, len(nodes) - i) + 1)
                kids = self.split(nodes[i:i + k], level + 1)
                f = {}
                plain = all(x[0] != "raw" for x in kids)
                for kind in ("groups", "groups", "lookups", "vars", "inputs", "outputs") if plain else ():
                    names = [x[2]["name"] for x in kids if kind_of(x) == kind and "name" in x[2]]
                    if names and r.random() < 0.2:
                        f[kind] = self.pick(kids) if kind == "groups" else r.sample(names, r.randrange(0, len(names) + 1)) or ["nosuch"]
                out.append(["ext", self.path(), kids, f, r.random() < 0.3] + (["mac" + self.uid()] if r.random() < 0.15 else []))
                if len(out[-1]) > 5:
                    out.insert(len(out) - 1, ["raw", MACRO.format(out[-1][5], r.choice(["@", "%%", "kw"]))])
                i += k
            else:
                out.append(nodes[i])
                i += 1
        return out


def kind_of(n):
    if isinstance(n, str):
        return None
    if n[0] == "grp":
        return "groups"
    if n[0] == "inc":
        return "lookups" if n[1] == "lookup" else "vars"
    if n[0] == "leaf":
        return "inputs" if n[1].startswith("in") else "outputs"


def gen(seed, tier):
    r = random.Random(seed)
    m = Make(r)
    parts = []
    if r.random() < 0.6:
        wl = workload.make(r, carry=False, nfeat=r.choice([1, 2]), output=0.15, group_output=0, commands=0, datums=2)
        parts += [["raw", p] for p in wl["parts"]]
        data = list(wl["data"])
    else:
        data = ["", ""]
    own = [m.group() for _ in range(r.choice([1, 1, 2, 3]))]
    incs = [m.include() for _ in range(r.choice([0, 1, 1, 2]))]
    use = []
    for node, g in incs:
        parts.append(node)
        use.append(g[:4])
        for i in range(2):
            data[i] += "".join(l + "\n" for l in g[4] if r.random() < 0.8)
    leaves = [m.leaf() for _ in range(r.choice([0, 0, 0, 1, 2]))]
    for node, g in leaves:
        if g:
            use.append(g)
    tail = [p for p in parts if p[0] == "raw" and p[1].startswith("<output")]
    parts = [p for p in parts if p not in tail] + [l[0] for l in leaves if l[1]] + own + use + tail + [l[0] for l in leaves if not l[1]]
    for i in range(2):
        data[i] += "".join(emit(r, g) for _ in range(2) for g in own)
    nodes = m.split(parts)
    if r.random() < 0.12:
        # child templates
        k = r.randrange(len(parts) + 1)
        nodes = [["tpl", dict([("name", "t" + x)] + ([("results", "per_template")] if r.random() < 0.3 else [])), m.split(y)] for x, y in (("a", parts[:k]), ("b", parts[k:])) if y]
        if r.random() < 0.3:
            # these in files too
            nodes = [n[:4] + [True] + n[5:] if n[0] == "ext" else n for n in m.split(nodes)]
        nodes = [["tpl", {}, nodes]]
    if r.random() < 0.06:
        # nothing but lines, all of it in another file
        u = m.uid()
        nodes = [["ext", m.path(), ["anon{} {{{{ a }}}}\n opt {{{{ b }}}}\n".format(u)], {}, False]]
        if r.random() < 0.4:
            nodes = [["ext", m.path(), nodes, {}, r.random() < 0.3]]
        data = ["anon{} x\n opt y\nanon{} z\n".format(u, u)] * 2
    case = {"nodes": nodes, "data": data, "main": r.choice(["text", "text", "file", "file", "new", "dir"]), "tdir": r.random() < 0.2, "order_seed": r.randrange(1 << 30),
            "short": r.choice([0, 0.3, 0.9]), "bufsize": r.choice([None, None, 16, 61, 512]), "after": r.choice(["keep", "keep", "garbage", "gone"]),
            "nl": r.choice(["\n", "\n", "\n", "\r\n"]), "bad": r.random() if r.random() < 0.06 else None, "api": None,
            "faults": [{"frac": r.random(), "kind": r.random()} for _ in range(r.choice([0, 1, 1, 1, 2]))]}
    case["decoy"] = not case["tdir"] and r.random() < 0.15
    if case["decoy"]:
        # a file that is not there is another file then
        case["faults"] = []
    if r.random() < 0.2:
        rows = [(workload.WORDS[i], workload.w(r)) for i in range(4)]
        case["api"] = {"load": r.choice(["csv", "yaml", "json", "ini"]), "rows": rows, "path": m.path(".lkp")}
        case["nodes"] = case["nodes"] + [["raw", '<group name="api*">\napi {{ a | lookup("apil", add_field="fnd") }}\n</group>']]
        case["data"] = [d + "api {}\napi nosuch\n".format(r.choice(rows)[0]) for d in case["data"]]
    if case["main"] == "dir":
        # two templates in one directory
        k = r.randrange(len(case["nodes"]) + 1)
        case["second"] = [m.group()]
        case["data"] = [d + emit(r, case["second"][0]) for d in case["data"]]
        if r.random() < 0.6:
            case["second"] = [["ext", m.path(), case["second"], {}, False]]
    return case


def emit(r, g):
    """data lines for a group of the own kind"""
    out = ""
    for p in g[3] if g[0] == "grp" else g[2]:
        if isinstance(p, str):
            for l in p.splitlines():
                if r.random() < 0.8 or g[0] == "grp" and p is g[3][0]:
                    out += l.split("{{")[0] + workload.w(r) + "\n"
        else:
            out += emit(r, p)
    return out


def attrs(d):
    return "".join(' {}="{}"'.format(k, v) for k, v in d.items())


def render(nodes, files, t=lambda x: x):
    """text of the nodes; what belongs into files is put into ``files``"""
    out = ""
    for n in nodes:
        if isinstance(n, str):
            out += n
        elif n[0] == "raw":
            out += n[1] + "\n"
        elif n[0] == "grp":
            out += "<{}{}>\n{}</{}>\n".format(n[1], attrs(n[2]), render(n[3], files, t), n[1])
        elif n[0] == "leaf":
            out += "<{}{}>\n{}</{}>\n".format(n[1], attrs(n[2]), n[3], n[1])
        elif n[0] == "tpl":
            out += "<template{}>\n{}</template>\n".format(attrs(n[1]), render(n[2], files, t))
        elif n[0] == "inc":
            files[n[4]] = t(n[5])
            out += "<{}{} include=\"{}\"{}\n".format(n[1], attrs(n[2]), n[4], ">\n{}</{}>".format(n[3], n[1]) if n[3] else "/>")
        elif n[0] == "ext":
            text = render(n[2], files, t)
            text = "<template>\n{}</template>".format(text) if n[4] else text
            if len(n) > 5:
                # as the macro undoes it
                text = text.replace("@", "@!").replace("kw", "@@")
            files[n[1]] = t(text)
            out += '<extend template="{}"{}{}/>\n'.format(n[1], "".join(' {}="{}"'.format(k, ", ".join(v)) for k, v in n[3].items()), ' macro="{}"'.format(n[5]) if len(n) > 5 else "")
    return out


def inline(nodes, t=lambda x: x, changed=False):
    """the same in one piece"""
    f = t if changed else lambda x: x
    out = ""
    for n in nodes:
        if isinstance(n, str):
            out += f(n)
        elif n[0] == "raw":
            out += f(n[1]) + "\n"
        elif n[0] == "grp":
            out += "<{}{}>\n{}</{}>\n".format(n[1], f(attrs(n[2])), inline(n[3], t, changed), n[1])
        elif n[0] == "leaf":
            out += "<{}{}>\n{}</{}>\n".format(n[1], f(attrs(n[2])), f(n[3]), n[1])
        elif n[0] == "tpl":
            out += "<template{}>\n{}</template>\n".format(attrs(n[1]), inline(n[2], t, changed))
        elif n[0] == "inc":
            a, b = f(n[3]), t(n[5])
            text = b + "\n" + a if n[6] == "ini" else a + "\n" + b if a else b
            out += "<{}{}>\n{}</{}>\n".format(n[1], f(attrs(n[2])), text, n[1])
        elif n[0] == "ext":
            kids, i = [], 0
            want = {k: [f(x) for x in v] for k, v in n[3].items()}
            for k in n[2]:
                kind = kind_of(k)
                listed = want.get(kind)
                if listed and t(k[2].get("name", "")) not in listed and not (kind == "groups" and str(i) in listed):
                    i += kind == "groups"
                    continue
                i += kind == "groups"
                kids.append(k)
            out += inline(kids, t, True)
    return out


def swap(x):
    return x.replace("qq", "zz")


def mains(case, files, t=lambda x: x):
    """argument for the parser, given the files"""
    text = render(case["nodes"], files, t)
    if case["main"] == "dir":
        files["main/a.ttp"] = text
        files["main/b.ttp"] = render(case["second"], files, t)
        return "main/"
    if case["main"] == "file":
        files["main.ttp"] = text
        return "main.ttp"
    return text


def put(files, nl, root="."):
    for p, text in files.items():
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
        old = os.stat(p) if os.path.exists(p) else None
        with open(p, "wb") as f:
            f.write(text.replace("\n", nl).encode("utf-8") if isinstance(text, str) else text)
        if old:
            os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))


def table(api, t=lambda x: x):
    rows = api["rows"]
    return {"csv": lambda: "id,own\n" + "".join("{},qq{}\n".format(a, b) for a, b in rows), "yaml": lambda: "".join("{}: qq{}\n".format(a, b) for a, b in rows),
            "json": lambda: json.dumps({a: "qq" + b for a, b in rows}), "ini": lambda: "".join("[{}]\nz = qq{}\n".format(a, b) for a, b in rows)}[api["load"]]()


def reference(case, d, version):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    t = swap if version else (lambda x: x)
    T = scenario.import_ttp().ttp
    infile = case["main"] in ("file", "dir")
    if not infile:
        texts = [inline(case["nodes"], t)]
    else:
        # the main part is a file too; only the others change
        texts = [inline(case["nodes"], t)] + ([inline(case["second"], t)] if case["main"] == "dir" else [])

    def go():
        p = T(log_level="CRITICAL")
        for x in texts:
            p.add_template(x or "\n")
        if case["api"]:
            p.add_lookup("apil", text_data=t(table(case["api"])), load=case["api"]["load"])
        for x in case["data"]:
            p.add_input(x)
        p.parse(one=True)
        return p.result()
    o = scenario.outcome(go)
    return {"out": list(o[:2]), "texts": texts}


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.seen = []

    def emit(self, rec):
        if rec.levelno >= logging.ERROR:
            self.seen.append(rec.getMessage()[:200])


def play(case, faults, d):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    r = random.Random(case["order_seed"])
    root = "tt" if case["tdir"] else "."
    if case["tdir"]:
        os.environ["TTP_TEMPLATES_DIR"] = os.path.join(d, "tt")
    files = {}
    main = mains(case, files)
    if case["tdir"] and main == "main/":
        main = "tt/main/"
    if case["api"]:
        files[case["api"]["path"]] = table(case["api"])
    bad = None
    if case["bad"] is not None:
        p = sorted(k for k in files)[int(case["bad"] * len(files))] if files else None
        if p:
            b = files[p].encode("utf-8")
            k = len(b) // 2
            files[p] = b[:k] + b"\xff\xfe" + b[k:]
            bad = os.path.normpath(os.path.join(root, p))
    put(files, case["nl"], root)
    if case.get("decoy"):
        # files of the same names where they are looked for only if there are none here
        put({k: swap(v) if isinstance(v, str) else v for k, v in files.items()}, case["nl"], "decoy")
        os.environ["TTP_TEMPLATES_DIR"] = os.path.join(d, "decoy")
    log = Log()
    logging.getLogger().addHandler(log)
    T = scenario.import_ttp().ttp
    plan = fs.Plan(d, faults)
    changed = [0, 0]

    def hook(op, path, size):
        a = plan(op, path, size)
        if a is None and op == "read" and r.random() < case["short"]:
            changed[0] += 1
            return ("short", r.choice([1, 2, 3, 7, 100, 4097]) if size > 400 else max(1, size // 2))
        return a
    sim = fs.Sim(d, hook)
    sim.bufsize = case["bufsize"]

    def order(names):
        n = list(names)
        r.shuffle(n)
        changed[1] += n != names
        return n
    sim.order = order

    def load(p=None, step=0):
        """step: what of the loading is done already"""
        if step < 1:
            if case["main"] == "new" and p is None:
                p = T(template=main, log_level="ERROR")
            else:
                p = p or T(log_level="ERROR")
                box["p"] = p
                p.add_template(main)
            box["p"] = p
            box["step"] = 1
        if case["api"]:
            p.add_lookup("apil", include=case["api"]["path"], load=case["api"]["load"])
        return p

    def finish(p):
        for x in case["data"]:
            p.add_input(x)
        p.parse(one=True)
        return p.result()
    box = {"step": 0}
    res = {"again": None, "second": None, "errors": []}
    with fs.active(sim):
        o = scenario.outcome(load)
    res["loaded"] = o[0]
    res["log"], res["fired"], res["changed"] = plan.log, plan.fired, changed
    res["errors"] = list(log.seen)
    res["bad"] = bad is not None and any(x[0] == "open-r" and os.path.normpath(x[1]) == bad for x in plan.log)
    if o[0] == "raised":
        res["out"] = list(o[:2])
        if "p" in box and plan.fired and not any(f[0] in ("vanish", "replace", "todir") for f in plan.fired):
            o = scenario.outcome(lambda: finish(load(box["p"], box["step"])))
            res["again"] = list(o[:2])
        return res
    p = box["p"]
    if case["after"] == "garbage":
        put({k: "garbage {{ x }} <" for k in files}, "\n", root)
    elif case["after"] == "gone":
        for k in files:
            if os.path.exists(os.path.join(root, k)):
                os.unlink(os.path.join(root, k))
    res["out"] = list(scenario.outcome(finish, p)[:2])
    if faults is None and case["bad"] is None:
        # the same files with other content of equal length and time stamp
        if case["after"] == "keep":
            files = {}
            main = mains(case, files, swap)
            if case["main"] in ("file", "dir"):
                for k in [x for x in files if x.startswith("main")]:
                    # the main part stays as it was
                    del files[k]
                main = {"file": "main.ttp", "dir": "tt/main/" if case["tdir"] else "main/"}[case["main"]]
            if case["api"]:
                files[case["api"]["path"]] = swap(table(case["api"]))
            put(files, case["nl"], root)
            box.clear()
            box["step"] = 0
            o = scenario.outcome(lambda: finish(load()))
            res["second"] = list(o[:2])
    return res


def choose(case, log):
    """concrete faults for the operations the run without faults made"""
    out = []
    for f in case["faults"]:
        if "index" in f:
            out.append(f)
            continue
        # a path that cannot be looked at is taken for template text, which may be any text
        cand = [(i + 1, op) for i, (op, rel, size) in enumerate(log)
                if op in ("open-r", "read", "listdir") or op == "stat" and "main" not in rel and "/" in rel]
        if not cand:
            continue
        i, op = cand[int(f["frac"] * len(cand)) % len(cand)]
        kinds = {"open-r": [["vanish"], ["vanish"], ["err", "EACCES"], ["err", "EIO"], ["err", "EMFILE"], ["err", "ESTALE"], ["err", "ENOENT"]],
                 "read": [["err", "EIO"], ["err", "ESTALE"]], "stat": [["vanish"], ["err", "EACCES"], ["err", "EIO"], ["err", "ENOENT"]],
                 "listdir": [["err", "EIO"], ["err", "EACCES"]]}[op]
        out.append({"index": i, "do": kinds[int(f["kind"] * len(kinds)) % len(kinds)]})
    return out


def run(case, env):
    refs = []
    for v in (0, 1):
        r = core.isolated(reference, case, env.scratch("run"), v, timeout=env.timeout)
        if r[0] != "ok":
            return env.harness("reference: {}".format(r))
        refs.append(r[1])
    ref = refs[0]["out"]
    if ref[0] != "ok":
        return env.skip("template in one piece raises")
    a = core.isolated(play, case, None, env.scratch("run"), timeout=env.timeout)
    if a[0] != "ok":
        return env.harness("run without faults: {}".format(a))
    a = a[1]
    fired = {"short_read": a["changed"][0], "listing_order": a["changed"][1]}
    env.add({"log": core.digest(repr(a["log"])), "fired": fired, "steps": len(a["log"]), "tail": []}, nontrivial=any(a["changed"]))
    tail = {"tail": [list(map(str, x)) for x in a["log"]][-30:]}
    if a["bad"]:
        if a["loaded"] != "raised" and not a["errors"]:
            return env.violation("undecodable-file-ignored", "a file that is not UTF-8 was accepted: {}".format(core.short(str(a["out"]), 300)), res=tail)
        return env.ok()
    if a["out"] != ref:
        return env.violation("not-in-place", diff(ref, a["out"]) + " " + "; ".join(a["errors"])[:300], res=tail)
    if a["second"] is not None and a["second"] != refs[1]["out"]:
        return env.violation("old-content", "files were changed, then loaded by another parser: " + diff(refs[1]["out"], a["second"]), res=tail)
    faults = choose(case, a["log"])
    if not faults:
        return env.ok()
    b = core.isolated(play, case, faults, env.scratch("run"), timeout=env.timeout)
    if b[0] == "timeout":
        return env.violation("hang", "loading does not end after {}".format(faults))
    if b[0] != "ok":
        return env.harness("run with faults: {}".format(b))
    b = b[1]
    for f in b["fired"]:
        k = "{}@{}".format(f[0], f[1])
        fired[k] = fired.get(k, 0) + 1
    env.add({"log": core.digest(repr(a["log"]), repr(b["log"]), repr(b["fired"])), "fired": fired, "steps": len(a["log"]) + len(b["log"])},
            nontrivial=bool(b["fired"]) or any(a["changed"]))
    tail = {"tail": [list(map(str, x)) for x in b["log"]][-20:] + [["fired"] + [str(x) for x in f] for f in b["fired"]]}
    if not b["fired"]:
        if b["out"] != ref:
            return env.violation("not-in-place", diff(ref, b["out"]), res=tail)
        return env.ok()
    if b["loaded"] == "raised":
        if b["again"] is not None and b["again"] != ref:
            return env.violation("damaged-by-failed-load", "after {} loaded again: {}".format(b["fired"], diff(ref, b["again"])), res=tail)
    elif b["out"] != ref and not b["errors"]:
        return env.violation("silent-loss", "after {}: {}".format(b["fired"], diff(ref, b["out"])), res=tail)
    return env.ok()


def diff(a, b):
    if a[0] == b[0] == "ok":
        return core.first_diff(a[1], b[1])
    return "expected {} got {}".format(core.short(str(a), 300), core.short(str(b), 300))


def smaller(nodes):
    for i, n in enumerate(nodes):
        yield nodes[:i] + nodes[i + 1:]
        if not isinstance(n, str):
            k = {"ext": 2, "grp": 3, "tpl": 2}.get(n[0])
            if k:
                for s in smaller(n[k]):
                    if s and (n[0] != "grp" or isinstance(s[0], str)):
                        yield nodes[:i] + [n[:k] + [s] + n[k + 1:]] + nodes[i + 1:]
            if n[0] == "ext":
                yield nodes[:i] + n[2] + nodes[i + 1:]
                if n[3]:
                    yield nodes[:i] + [n[:3] + [{}] + n[4:]] + nodes[i + 1:]


def shrink(case):
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    for k, v in (("short", 0), ("bufsize", None), ("tdir", False), ("decoy", False), ("after", "keep"), ("nl", "\n"), ("bad", None)):
        if case.get(k) != v:
            yield dict(case, **{k: v})
    if case["api"]:
        yield dict(case, api=None)
    for n in smaller(case["nodes"]):
        if n:
            yield dict(case, nodes=n)
    for i, d in enumerate(case["data"]):
        lines = d.split("\n")
        n = max(1, len(lines) // 4)
        for a in range(0, len(lines), n):
            if len(lines) > 2:
                yield dict(case, data=case["data"][:i] + ["\n".join(lines[:a] + lines[a + n:]) or "x"] + case["data"][i + 1:])


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
    fs.install()
