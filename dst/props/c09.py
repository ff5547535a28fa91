"""C09: outputs to files are written exactly and completely, or the failure is reported."""
import json
import os
import pprint
import random

from .. import core, fs, scenario, starters

ID = "C09"
RULE = ("seed -> 1-3 actors, each a template with 1-4 file outputs (text formats, tables, workbooks, group and template outputs, names from variables) and 1-3 "
        "rounds of data; one actor: run with short writes, then with 1-2 faults at chosen file operations; several actors: processes writing into one new "
        "directory in a seeded order with faults and crashes; non-trivial: a fault fired, a write was shortened or processes interleaved; distinct by hash of the operation log")
REAL = ["whole ttp package", "openpyxl, zipfile, io text and buffer layers, real files below the seam", "real processes"]
STUB = ["raw file operations (fault injecting seam)", "process scheduling at file operations"]
ASSUMPTIONS = ["temporary files of openpyxl live outside the simulated directory and do not fail", "two outputs never share one target file"]
QUICK, THOROUGH = 2000, 50000
TEXT = ["json", "yaml", "pprint", "raw"]
TABLE = ["csv", "table", "tabulate"]
WORDS = ["uplink", "to core", "caf\u00e9 \u4e2d", "x" * 60, "spare", "\U0001f600 ok", "a,b", "q'q", "-"]
JINJA = "{% for d in _data_ %}\nrow {{ loop.index }}: {{ d }}\n{% endfor %}\ntotal {{ _data_|length }}"


def gen(seed, tier):
    r = random.Random(seed)
    mode = r.choice(["single", "single", "single", "procs"])
    n = 1 if mode == "single" else r.choice([2, 2, 3])
    url = r.choice(["out", "out", "./Output/", "out/", "r\u00e9s"])
    actors = []
    for a in range(n):
        grp = r.random() < 0.3
        outs = []
        per_template = not grp and r.random() < 0.25
        kinds = TEXT + ["excel"] if grp else TEXT + TABLE + ["excel", "excel", "jinja2"]
        for i in range(r.choice([1, 1, 2, 3, 4])):
            fmt = r.choice(kinds)
            o = {"fmt": fmt, "scope": r.choice(["interfaces", "vlans", "template"]) if grp else "template", "url": url if r.random() < 0.8 else "other{}".format(a)}
            base = "a{}_f{}".format(a, i)
            o["fname"] = r.choice([base + ".txt", base, "{site}_" + base + ".txt", "{hostn}_" + base, "{hostn}-{site}." + base])
            if fmt == "excel":
                if grp and o["scope"] == "template":
                    o["fmt"] = "json"
                else:
                    o["fname"] = o["fname"].replace(".txt", "") + r.choice([".xlsx", ""])
                    o["update"] = r.random() < 0.6
                    o["tabs"] = []
                    src = ["interfaces", "vlans", "users"] if o["scope"] == "template" else [o["scope"]]
                    for p in r.sample(src, r.randrange(1, len(src) + 1)):
                        t = {"path": p}
                        if r.random() < 0.6:
                            t["tab_name"] = p
                        if p == "users":
                            t["key"] = "user"
                        if o["update"] or r.random() < 0.5:
                            t["headers"] = {"interfaces": "name, mtu, d", "vlans": "vid, vname", "users": "user, role, lvl"}[p]
                        if r.random() < 0.3:
                            t["missing"] = "n/a"
                        t["strict"] = False
                        o["tabs"].append(t)
            elif fmt in TABLE:
                o["path"] = r.choice(["interfaces", "vlans"])
                if r.random() < 0.3:
                    o["headers"] = {"interfaces": "mtu,name,zz", "vlans": "vname,vid"}[o["path"]]
                if r.random() < 0.4:
                    o["missing"] = "-"
            if r.random() < 0.12:
                o["cond"] = r.choice(["site, s1", "site, nope"])
            if not grp and o["fmt"] in TEXT + ["csv"] and i > 0 and r.random() < 0.15:
                o["chain"] = r.choice(["self, file", "file, self"])
            outs.append(o)
            if o.get("chain"):
                break
        full = any(o["fmt"] in TABLE or o.get("chain") for o in outs)
        rounds = []
        uid = 0
        for _ in range(r.choice([1, 1, 2, 3]) if mode == "single" else r.choice([1, 1, 2])):
            if rounds and r.random() < 0.25:
                # the same data once more
                rounds.append(json.loads(json.dumps(rounds[-1])))
                continue
            rd = []
            for _ in range(r.choice([1, 1, 2, 3])):
                lo = 1 if full else 0
                big = r.random() < 0.05
                uid += 10
                rd.append({"host": r.choice(["sw{}".format(uid % 7), "core-{}".format(uid)]),
                           "ifs": [["Gi0/{}".format(uid + k), r.choice([1500, 9100, None]), r.choice(WORDS + [None])] for k in range(r.randrange(lo, 4) + (300 if big else 0))],
                           "vlans": [[str(uid + k), "v" + r.choice("abc") * 3] for k in range(r.randrange(lo, 3))],
                           "users": [["u{}".format(uid + k), r.choice(["adm", "ro"]), r.randrange(15)] for k in range(r.randrange(0, 3))]})
            if not full and r.random() < (0.15 if per_template else 0.03):
                # nothing that matches
                for d in rd:
                    d.update({"ifs": [], "vlans": [], "users": []})
            rounds.append(rd)
        actors.append({"outs": outs, "rounds": rounds, "per_template": per_template, "fresh": r.random() < 0.4, "load": r.choice(["yaml", "python", "json"])})
    if mode == "single" and r.random() < 0.08 and not any(o["fmt"] == "excel" for a in actors for o in a["outs"]):
        # text that no file can hold, as the device's undecodable bytes come in
        for x in actors[0]["rounds"][-1][-1]["ifs"][:1]:
            x[2] = r.choice(["bad \udc80 byte", "\ud83d", "caf\udce9"])
    faults = [{"frac": r.random(), "kind": r.random(), "p": r.randrange(n), "by": r.choice([None, r.random()])} for _ in range(r.choice([0, 1, 1, 1, 1, 2]))]
    return {"mode": mode, "actors": actors, "dir": r.choice(["absent", "absent", "absent", "empty", "full", "full", "file", "dangling"] if mode == "single" else ["absent", "absent", "absent", "empty"]),
            "book": r.random() < 0.5, "faults": faults, "short": r.choice([0, 0, 0.2, 0.8]), "short_seed": r.randrange(1 << 30), "bufsize": r.choice([None, None, 64, 1000]),
            "stay": r.choice([0, 0.3, 0.8]), "sched_seed": r.randrange(1 << 30), "sched": None}


# --------------------------------------------------------------------- template
def template(actor, outputs=True):
    t = '<template results="per_template">\n' if actor["per_template"] else ""
    t += '<vars>\nhostn = "gethostname"\nsite = "s1"\n</vars>\n'

    def go(g):
        names = ["o{}".format(i) for i, o in enumerate(actor["outs"]) if o["scope"] == g]
        return ' output="{}"'.format(", ".join(names)) if names and outputs else ""
    t += '<group name="interfaces*"{}>\ninterface {{{{ name }}}}\n mtu {{{{ mtu | to_int }}}}\n descr {{{{ d | _line_ }}}}\n</group>\n'.format(go("interfaces"))
    t += '<group name="vlans*"{}>\nvlan {{{{ vid }}}} name {{{{ vname }}}}\n</group>\n'.format(go("vlans"))
    t += '<group name="users**.{{ user }}">\nuser {{ user }} role {{ role }} lvl {{ lvl | to_int }}\n</group>\n'
    for i, o in enumerate(actor["outs"] if outputs else ()):
        at = 'name="o{}" format="{}" returner="{}" url="{}" filename="{}"'.format(i, o["fmt"], o.get("chain", "file"), o["url"], o["fname"])
        if "cond" in o:
            at += ' condition="{}"'.format(o["cond"])
        for k in ("path", "headers", "missing"):
            if k in o:
                at += ' {}="{}"'.format(k, o[k])
        if o["fmt"] == "excel":
            d = {"table": o["tabs"]}
            if o["update"]:
                d["update"] = True
            ld = actor["load"]
            if ld == "yaml":
                import yaml
                body = yaml.safe_dump(d)
            elif ld == "json":
                body = json.dumps(d)
            else:
                body = "\n".join("{} = {!r}".format(k, v) for k, v in d.items())
            t += '<output {} load="{}">\n{}\n</output>\n'.format(at, ld, body)
        elif o["fmt"] == "jinja2":
            t += "<output {}>\n{}\n</output>\n".format(at, JINJA)
        else:
            t += "<output {}/>\n".format(at)
    return t + ("</template>\n" if actor["per_template"] else "")


def text(d):
    s = "\n{}#show all\n".format(d["host"])
    for n, m, ds in d["ifs"]:
        s += "interface {}\n".format(n)
        if m is not None:
            s += " mtu {}\n".format(m)
        if ds is not None:
            s += " descr {}\n".format(ds)
    for v, n in d["vlans"]:
        s += "vlan {} name {}\n".format(v, n)
    for u, ro, l in d["users"]:
        s += "user {} role {} lvl {}\n".format(u, ro, l)
    return s


# ------------------------------------------------------------------------ model
def parts(d):
    ifs = []
    for n, m, ds in d["ifs"]:
        i = {"name": n}
        if m is not None:
            i["mtu"] = m
        if ds is not None:
            i["d"] = ds
        ifs.append(i)
    out = {}
    if ifs:
        out["interfaces"] = ifs
    if d["vlans"]:
        out["vlans"] = [{"vid": v, "vname": n} for v, n in d["vlans"]]
    if d["users"]:
        out["users"] = {u: {"role": ro, "lvl": l} for u, ro, l in d["users"]}
    return out


def rows(data, tab, hdr):
    """list of lists: header row first"""
    src = data if isinstance(data, list) else [data]
    items = []
    for d in src:
        x = d.get(tab["path"])
        if not x:
            continue
        if isinstance(x, list):
            items += x
        elif tab.get("key"):
            items += [dict(v, **{tab["key"]: k}) for k, v in x.items()]
        else:
            items.append(x)
    h = [i.strip() for i in hdr.split(",")] if hdr else sorted({k for i in items for k in i})
    return [h] + [[i.get(k, tab.get("missing", "")) for k in h] for i in items]


def fmt_text(o, data):
    f = o["fmt"]
    if f == "json":
        return json.dumps(data, sort_keys=True, indent=4, separators=(",", ": "))
    if f == "yaml":
        import yaml
        return yaml.dump(data, default_flow_style=False)
    if f == "pprint":
        return pprint.pformat(data, indent=4)
    if f == "raw":
        return data
    if f == "jinja2":
        from jinja2 import Environment
        return Environment(loader="BaseLoader", trim_blocks=True, lstrip_blocks=True).from_string("\n" + JINJA + "\n").render(_data_=data)
    t = rows(data, o, o.get("headers"))
    if f == "table":
        return t
    if f == "tabulate":
        from tabulate import tabulate
        return tabulate(t[1:], headers=t[0])
    return "\n".join('"' + '","'.join(str(c) for c in row) + '"' for row in t)


class Model:
    """expected results and files, event by event"""

    def __init__(self, files, plain=None):
        self.plain = plain              # datum text -> its results, with the order of keys
        self.files = dict(files)        # path -> text | {sheet: rows}
        self.states = {}                # path -> every state since the round began

    def put(self, o, data, host):
        if o.get("cond", "site, s1") != "site, s1":
            return
        fn = o["fname"].replace("{site}", "s1").replace("{hostn}", host)
        path = os.path.normpath(os.path.join(o["url"], fn))
        if o["fmt"] != "excel":
            x = fmt_text(o, data)
            self.files[path] = x if isinstance(x, str) else str(x)
        else:
            if not path.endswith(".xlsx"):
                path += ".xlsx"
            old = self.files.get(path) if o["update"] else None
            book = {k: list(v) for k, v in old.items()} if isinstance(old, dict) else {}
            for i, t in enumerate(o["tabs"]):
                n = t.get("tab_name", "Sheet{}".format(i))
                new = [[str(c) if not isinstance(c, int) else c for c in row] for row in rows(data, t, t.get("headers"))]
                book[n] = book[n] + new[1:] if n in book else new
            self.files[path] = book
        self.states.setdefault(path, []).append(self.files[path])

    def round(self, actor, rd):
        """returns the expected results"""
        self.states = {p: [c] for p, c in self.files.items()}
        per = []
        for d in rd:
            p = dict(self.plain[text(d)]) if self.plain is not None else parts(d)
            grp = []
            for g in ("interfaces", "vlans"):
                outs = [o for o in actor["outs"] if o["scope"] == g]
                if outs and g in p:
                    one = {g: p.pop(g)}
                    for o in outs:
                        self.put(o, one, d["host"])
                    grp.append(one)
            if grp:
                per.append(([p] if p else []) + grp)
            else:
                per.append(p)
        res = per
        if actor["per_template"]:
            res = {}
            for p in per:
                for k, v in p.items():
                    if isinstance(v, list):
                        res.setdefault(k, []).extend(v)
                    else:
                        res.setdefault(k, {}).update(v)
        for o in actor["outs"]:
            if o["scope"] != "template":
                continue
            self.put(o, res, rd[-1]["host"])
            if o.get("chain") and o.get("cond", "site, s1") == "site, s1":
                res = fmt_text(o, res)
        return [res]


def plain_results(case):
    """results of every datum without outputs, checked against the model"""
    T = scenario.import_ttp().ttp
    out = {}
    for a in case["actors"]:
        t = template(dict(a, per_template=False), outputs=False)
        for rd in a["rounds"]:
            for d in rd:
                p = T(log_level="CRITICAL")
                p.add_template(t)
                p.add_input(text(d))
                p.parse(one=True)
                r = p.result()
                if core.unordered(r) != core.unordered([[parts(d)]]):
                    return {"bad": core.first_diff(core.unordered([[parts(d)]]), core.unordered(r))}
                out[text(d)] = r[0][0]
    return {"plain": out}


# -------------------------------------------------------------------- execution
def prepare(case, d):
    """initial files; returns what the model starts with"""
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    model = {}
    urls = sorted({o["url"] for a in case["actors"] for o in a["outs"]})
    with open("unrelated.txt", "w") as f:
        f.write("keep\n")
    model["unrelated.txt"] = "keep\n"
    for u in urls:
        k = case["dir"]
        if k == "absent" or u.startswith("other"):
            continue
        if k == "file":
            with open(u.rstrip("/"), "w") as f:
                f.write("a file\n")
            model[os.path.normpath(u)] = "a file\n"
        elif k == "dangling":
            os.symlink("nowhere/x", u.rstrip("/"))
        else:
            os.makedirs(u)
            if k == "full":
                for n in ("unrelated2.txt", "a0_f0.txt", "a0_f1"):
                    with open(os.path.join(u, n), "w") as f:
                        f.write("old content that is longer than the new one " * 40)
                    model[os.path.normpath(os.path.join(u, n))] = "old content that is longer than the new one " * 40
                if case["book"]:
                    for a in case["actors"]:
                        for o in a["outs"]:
                            if o["fmt"] == "excel" and o["url"] == u:
                                fn = o["fname"].replace("{site}", "s1").replace("{hostn}", a["rounds"][0][-1]["host"])
                                path = os.path.normpath(os.path.join(u, fn if fn.endswith(".xlsx") else fn + ".xlsx"))
                                book = {"interfaces": [["name", "mtu", "d"], ["old1", 1, "x"], ["old2", 2, ""]], "Notes": [["free", "text"], ["keep", 5], ["=1+2", "=Notes!B2*2"]]}
                                save_book(path, book)
                                model[path] = book
    return model


def save_book(path, book):
    import openpyxl
    wb = openpyxl.Workbook(write_only=True)
    for n, rws in book.items():
        ws = wb.create_sheet(title=n)
        for row in rws:
            ws.append(row)
    wb.save(path)


def new_parser(actor):
    T = scenario.import_ttp().ttp
    p = T(log_level="CRITICAL")
    p.add_template(template(actor))
    return p


def live(actor, d, faultfree_retry=None):
    """one actor's rounds; stops at the first error"""
    os.chdir(d)
    outs = []
    p = None
    for i, rd in enumerate(actor["rounds"]):
        if p is None or actor["fresh"]:
            p = new_parser(actor)
        else:
            p.clear_result()
            p.clear_input()
        for t in rd:
            p.add_input(text(t))

        def go():
            p.parse(one=True)
            return p.result()
        o = scenario.outcome(go)
        outs.append(o)
        if o[0] != "ok":
            if faultfree_retry:
                faultfree_retry()

                def again():
                    p.clear_result()
                    p.parse(one=True)
                    return p.result()
                outs.append(("retry",) + tuple(scenario.outcome(again)))
            break
    return outs


def books_of(model_files):
    return {p for p, c in model_files.items() if isinstance(c, dict)}


def read_tree(d, books):
    """path -> text or workbook rows or an error"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                continue
            if f.endswith(".xlsx"):
                try:
                    import openpyxl
                    wb = openpyxl.load_workbook(p)
                    out[rel] = {ws.title: [["" if c is None else c for c in row] for row in ws.values] for ws in wb.worksheets}
                except Exception as e:
                    out[rel] = "unreadable workbook: {}".format(type(e).__name__)
            else:
                with open(p, "rb") as fo:
                    out[rel] = fo.read().decode("utf-8", "backslashreplace")
    return out


def norm(c):
    """text, or sheets with cells padded to the widest row"""
    if not isinstance(c, dict):
        return c
    out = {}
    for n, rws in c.items():
        rws = [["" if x is None else x for x in row] for row in rws]
        while rws and not any(x != "" for x in rws[-1]):
            rws = rws[:-1]
        w = max([len(row) for row in rws] or [0])
        out[n] = [list(row) + [""] * (w - len(row)) for row in rws]
    return out


def single(case, faults, d):
    model = prepare(case, d)
    r = random.Random(case["short_seed"])
    plan = fs.Plan(d, faults, ops=None)
    changed = [0]

    def hook(op, path, size):
        a = plan(op, path, size)
        if a is None and op == "write" and size > 1 and r.random() < case["short"]:
            changed[0] += 1
            return ("short", r.choice([1, 7, 100, size // 2, size - 1]))
        return a
    sim = fs.Sim(d, hook)
    sim.bufsize = case["bufsize"]

    def retry():
        sim.hook = fs.Plan(d)
    with fs.active(sim):
        outs = live(case["actors"][0], d, retry if plan.faults else None)
    return {"outs": outs, "log": plan.log, "fired": plan.fired, "changed": changed[0], "tree": read_tree(d, None), "model": model}


def storm(case, d):
    model = prepare(case, d)
    ch = core.Choices(case["sched_seed"], case["sched"])
    marks = [dict(f, k=1 + int(f["frac"] * 25)) for f in case["faults"]]

    def fault(p, op, rel, size):
        for f in marks:
            if f["p"] == p.n and not f.get("used") and p.ops + 1 >= f["k"] and op in ("mkdir", "open-w", "write", "close", "stat", "replace", "rename"):
                f["used"] = True
                ks = [["crash"], ["crash"]] + KINDS.get(op, [])
                do = tuple(ks[int(f["kind"] * len(ks)) % len(ks)])
                return do if do[0] != "race" else None
        return None
    ctl = starters.Controller(d, ch, fault, stay=case["stay"], known=sorted({"unrelated.txt", "."} | set(model) | {os.path.normpath(o["url"]) for a in case["actors"] for o in a["outs"]} | expected_names(case)))

    def setup(n, sim):
        sim.bufsize = case["bufsize"]
    procs = [starters.Proc(i, live, (a, d), [d], setup) for i, a in enumerate(case["actors"])]
    res = {"violation": None}
    try:
        ctl.run(procs)
    except core.Violation as v:
        res["violation"] = [v.kind, v.detail]
    hit = sorted({e[0] for e in ctl.log if e[4]})
    res.update({"procs": [[p.state, p.value, p.n in hit] for p in procs], "choices": ch.taken, "log": ctl.loghash(), "fired": ctl.fired, "steps": ctl.ops,
                "switches": ctl.switches, "tail": [list(map(str, e)) for e in ctl.log[-40:]], "tree": read_tree(d, None), "model": model})
    return res


def expected_names(case):
    m = Model({})
    for a in case["actors"]:
        for rd in a["rounds"]:
            m.round(a, rd)
    return set(m.files)


W = [["err", "ENOSPC"], ["err", "EIO"], ["err", "EDQUOT"]]
KINDS = {"mkdir": [["race"], ["race"], ["err", "EACCES"], ["err", "ENOSPC"], ["err", "EROFS"], ["err", "EIO"]],
         "stat": [["err", "EIO"], ["err", "EACCES"], ["err", "ESTALE"]],
         "open-w": [["err", "EACCES"], ["err", "ENOSPC"], ["err", "EROFS"], ["err", "EMFILE"], ["err", "EIO"], ["err", "ENOENT"]],
         "open-r": [["err", "EIO"], ["err", "EACCES"], ["err", "EMFILE"]],
         "read": [["err", "EIO"], ["err", "ESTALE"]],
         "write": W + [["torn", 1, "ENOSPC"], ["torn", 40, "EIO"], ["torn", 700, "ENOSPC"]],
         "close": W}


def choose(case, log):
    out = []
    for f in case["faults"]:
        if "index" in f:
            out.append(f)
            continue
        cand = [(i + 1, op) for i, (op, rel, size) in enumerate(log) if op in KINDS]
        if not cand:
            continue
        if f.get("by") is not None:
            # kinds of operations are equally likely, however many of each there are
            ops = sorted({op for _, op in cand})
            o = ops[int(f["by"] * len(ops)) % len(ops)]
            cand = [c for c in cand if c[1] == o]
        i, op = cand[int(f["frac"] * len(cand)) % len(cand)]
        do = KINDS[op][int(f["kind"] * len(KINDS[op])) % len(KINDS[op])]
        # a refused file stays refused: zipfile tries twice
        out.append({"index": i, "do": do, "sticky": op.startswith("open") and do[-1] in ("EACCES", "EROFS", "ENOENT")})
    return out


def run(case, env):
    pl = core.isolated(plain_results, case, timeout=env.timeout)
    if pl[0] != "ok":
        return env.harness("results without outputs: {}".format(pl))
    if "bad" in pl[1]:
        env.add({"log": "plain"}, nontrivial=False)
        return env.violation("wrong-results", "without outputs: " + pl[1]["bad"])
    pl = pl[1]["plain"]
    if case["mode"] == "procs":
        return run_procs(case, env, pl)
    d = env.scratch("run")
    a = core.isolated(single, case, None, d, timeout=env.timeout)
    if a[0] != "ok":
        return env.harness("run without faults: {}".format(a))
    a = a[1]
    fired = {"short_write": a["changed"]}
    env.add({"log": core.digest(repr(a["log"])), "fired": fired, "steps": len(a["log"])}, nontrivial=bool(a["changed"]))
    tail = {"tail": [list(map(str, x)) for x in a["log"]][-30:]}
    bad = judge_clean(case, a, pl)
    if bad:
        return env.violation(bad[0], bad[1], res=tail)
    faults = choose(case, a["log"])
    if not faults:
        return env.ok()
    b = core.isolated(single, case, faults, env.scratch("run"), timeout=env.timeout)
    if b[0] == "timeout":
        return env.violation("hang", "parse does not end after {}".format(faults))
    if b[0] != "ok":
        return env.harness("run with faults: {}".format(b))
    b = b[1]
    for f in b["fired"]:
        k = "{}@{}".format(f[0], f[1])
        fired[k] = fired.get(k, 0) + 1
    env.add({"log": core.digest(repr(a["log"]), repr(b["log"]), repr(b["fired"])), "fired": fired, "steps": len(a["log"]) + len(b["log"])},
            nontrivial=bool(b["fired"]) or bool(a["changed"]))
    tail = {"tail": [list(map(str, x)) for x in b["log"]][-20:] + [["fired"] + [str(x) for x in f] for f in b["fired"]]}
    bad = judge_faulty(case, b, pl)
    if bad:
        return env.violation(bad[0], "after {}: {}".format(b["fired"], bad[1]), res=tail)
    return env.ok()


def same(text_, exp):
    import ast
    try:
        return core.unordered(ast.literal_eval(text_)) == core.unordered(exp)
    except (ValueError, SyntaxError):
        return text_ == core.canon(exp)


def blocked(case, actor):
    """outputs cannot be written: the directory's name is taken by a file"""
    return case["dir"] in ("file", "dangling") and any(not o["url"].startswith("other") for o in actor["outs"] if o.get("cond", "site, s1") == "site, s1")


def lone_targets(m):
    """files whose text has no encoding"""
    out = set()
    for p, s in m.states.items():
        for x in s:
            try:
                if isinstance(x, str):
                    x.encode("utf-8")
            except UnicodeEncodeError:
                out.add(p)
    return out


def diff_trees(exp, got, ignore=()):
    for p in sorted(set(exp) | set(got)):
        if p in ignore:
            continue
        e, g = exp.get(p), got.get(p)
        if e is None:
            return "unexpected-file", "{} with {}".format(p, core.short(str(g), 200))
        if g is None:
            return "file-missing", "{} was not written".format(p)
        if norm(e) != norm(g):
            if isinstance(e, str) and isinstance(g, str):
                return "wrong-content", "{}: {}".format(p, core.first_diff(e, g))
            return "wrong-content", "{}: expected {} got {}".format(p, core.short(str(norm(e)), 500), core.short(str(norm(g)), 500))
    return None


def judge_clean(case, run_, pl):
    m = Model(run_["model"], pl)
    actor = case["actors"][0]
    for rd, o in zip(actor["rounds"], run_["outs"]):
        if blocked(case, actor):
            # nothing can be written to a directory whose name is a file: must be reported when an output runs
            would = Model(dict(m.files), pl)
            before = dict(would.files)
            would.round(actor, rd)
            if o[0] == "ok" and any(not p.startswith("other") for p in would.files if would.files[p] != before.get(p)):
                return "failure-not-reported", "output directory is a file, parse returned normally"
            if o[0] != "ok":
                would.before = before
                return tree_within(would, run_["tree"])
            m = would
            continue
        m.before = dict(m.files)
        exp = m.round(actor, rd)
        lone = lone_targets(m)
        if lone:
            if o[0] == "ok":
                return "failure-not-reported", "{} cannot hold this text, parse returned normally".format(lone)
            return tree_within(m, run_["tree"], lone)
        if o[0] != "ok":
            return "unexpected-error", str(o)
        if not same(o[1], exp):
            return "wrong-results", core.first_diff(core.canon(exp), o[1])
    if len(run_["outs"]) < len(actor["rounds"]):
        return "unexpected-error", str(run_["outs"][-1])
    if blocked(case, actor):
        return None
    return diff_trees(m.files, run_["tree"])


def tree_within(m, tree, torn=()):
    """every file holds one of the states of this round; targets of a fault may hold anything"""
    for p, g in sorted(tree.items()):
        if p in torn:
            continue
        if p not in m.files:
            return "unexpected-file", p
        ok = [norm(s) for s in m.states.get(p, [])]
        if norm(g) not in ok:
            return "untouched-file-changed", "{}: {}".format(p, core.short(str(g), 400))
    for p, s in m.states.items():
        if p not in tree and p not in torn and s and s[0] is not None and p in m.before:
            return "file-lost", p
    return None


def judge_faulty(case, run_, pl):
    m = Model(run_["model"], pl)
    m.before = dict(m.files)
    actor = case["actors"][0]
    if blocked(case, actor):
        for o in run_["outs"]:
            if o[0] == "ok":
                continue
        return None
    if any("\ud800" <= c <= "\udfff" for rd in actor["rounds"] for d in rd for c in text(d)):
        return None
    outs = run_["outs"]
    torn = {os.path.normpath(f[2]) for f in run_["fired"]}
    for j, rd in enumerate(actor["rounds"]):
        if j >= len(outs):
            return "unexpected-error", str(outs)
        m.before = dict(m.files)
        exp = m.round(actor, rd)
        o = outs[j]
        if o[0] == "ok":
            if not same(o[1], exp):
                return "wrong-results", core.first_diff(core.canon(exp), o[1])
            continue
        if not run_["fired"]:
            return "unexpected-error", str(o)
        # the failure was reported; the next attempt without faults must do everything
        again = outs[j + 1]
        if again[1] != "ok":
            if any(p.endswith(".xlsx") for p in torn):
                # workbooks may have been updated by both attempts
                return tree_within(m, run_["tree"], torn | {p for p in m.files if p.endswith(".xlsx")})
            return "not-usable-after-failure", str(again)
        if not same(again[2], exp):
            return "wrong-results-after-failure", core.first_diff(core.canon(exp), again[2])
        tree = {p: c for p, c in run_["tree"].items() if not p.endswith(".xlsx")}
        full = {p: c for p, c in m.files.items() if not p.endswith(".xlsx")}
        return diff_trees(full, tree)
    return diff_trees(m.files, run_["tree"])


def run_procs(case, env, pl):
    out = core.isolated(storm, case, env.scratch("run"), timeout=env.timeout)
    if out[0] != "ok":
        return env.harness("processes: {}".format(out))
    res = out[1]
    res["extra"] = {"processes": len(case["actors"]), "process_switches": res["switches"]}
    env.add(res, nontrivial=res["switches"] > len(case["actors"]) or bool(res["fired"]))
    if res["violation"]:
        return env.violation(*res["violation"], res=res)
    tree = dict(res["tree"])
    for i, (state, value, hit) in enumerate(res["procs"]):
        actor = case["actors"][i]
        m = Model({}, pl)
        done = state == "done" and value[0] == "ok"
        if state == "done" and value[0] != "ok":
            return env.harness("process {}: {}".format(i, value))
        for j, rd in enumerate(actor["rounds"]):
            exp = m.round(actor, rd)
            if not done:
                continue
            if j < len(value[1]):
                o = value[1][j]
                if o[0] == "ok":
                    if not same(o[1], exp):
                        return env.violation("wrong-results", "process {}: {}".format(i, core.first_diff(core.canon(exp), o[1])), res=res)
                elif not hit:
                    return env.violation("disturbed-by-other-process", "process {}: {}".format(i, o), res=res)
                else:
                    done = False
        mine = {p: c for p, c in m.files.items()}
        if done:
            for p, c in mine.items():
                if norm(c) != norm(tree.get(p)):
                    return env.violation("wrong-content", "process {} file {}: expected {} got {}".format(i, p, core.short(str(c), 300), core.short(str(tree.get(p)), 300)), res=res)
        for p in mine:
            tree.pop(p, None)
    bad = diff_trees(res["model"], tree)
    if bad:
        return env.violation(bad[0], bad[1], res=res)
    return env.ok(res)


def shrink(case):
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    if len(case["actors"]) > 1:
        for i in range(len(case["actors"])):
            rest = case["actors"][:i] + case["actors"][i + 1:]
            yield dict(case, actors=rest, faults=[f for f in case["faults"] if f["p"] < len(rest)])
    for i, a in enumerate(case["actors"]):
        def put(x):
            return dict(case, actors=case["actors"][:i] + [x] + case["actors"][i + 1:])
        for k in ("outs", "rounds"):
            for j in range(len(a[k])):
                if len(a[k]) > 1:
                    yield put(dict(a, **{k: a[k][:j] + a[k][j + 1:]}))
        for j, rd in enumerate(a["rounds"]):
            for q in range(len(rd)):
                if len(rd) > 1:
                    yield put(dict(a, rounds=a["rounds"][:j] + [rd[:q] + rd[q + 1:]] + a["rounds"][j + 1:]))
                for k in ("ifs", "vlans", "users"):
                    if len(rd[q][k]) > 1:
                        yield put(dict(a, rounds=a["rounds"][:j] + [rd[:q] + [dict(rd[q], **{k: rd[q][k][:len(rd[q][k]) // 2]})] + rd[q + 1:]] + a["rounds"][j + 1:]))
    for k, v in (("short", 0), ("bufsize", None), ("dir", "absent"), ("book", False)):
        if case[k] != v:
            yield dict(case, **{k: v})


def race(path):
    try:
        fs._real["os_mkdir"](path)
    except OSError:
        pass
    raise FileExistsError(17, "File exists", path)


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
    fs.install()
    act = fs.Plan.action

    def action(self, do, op, path, size):
        if do[0] == "race":
            return ("do", race)
        return act(self, do, op, path, size)
    fs.Plan.action = action
