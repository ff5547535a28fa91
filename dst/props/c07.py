"""C07: any sequence of API calls behaves as the documented life cycle."""
import json
import os
from xml.etree import ElementTree
import random

from .. import core, scenario, session, workload

ID = "C07"
RULE = ("seed -> history of 6-30 API calls on one parser (templates, inputs of text, files, directories and structures, variables, lookups, "
        "parse, results in every structure, clearing) and changes of the files in between; non-trivial: at least two parses and one "
        "clearing or changing call between them; distinct by hash of the history's outcomes")
REAL = ["whole ttp package", "real files in a scratch directory"]
STUB = ["order of calls and file changes (seeded)", "expected results: executable life-cycle model over single-datum runs of fresh parsers"]
QUICK, THOROUGH = 4000, 60000


def gen(seed, tier):
    r = random.Random(seed)
    h = [["new", {"vars": {"extra": workload.w(r), "site0": workload.w(r)}} if r.random() < 0.5 else {}]]
    nt = r.choice([1, 1, 1, 2, 3])
    names = ["_root_template_"] if nt == 1 and r.random() < 0.5 else r.choice([["T1", "T2", "T3"], ["T1", "T2", "T3"], ["T", "T1", "T12"], ["ab", "a", "b"]])[:nt]
    datas, tinfo = [], {}
    late = []
    lks = False
    for nm in names:
        if r.random() < 0.25 and nm == "_root_template_":
            wl = workload.from_corpus(r, forbid=("time", "carry", "glookup", "per_template"))
            if "<input" in wl["template"] or "<in " in wl["template"] or "<i " in wl["template"] or "<template" in wl["template"] or "<out" in wl["template"] or "input=" in wl["template"] \
                    or "<o " in wl["template"] or "returner" in wl["template"] or "<extend" in wl["template"]:
                wl = workload.make(r, carry=False, output=0, group_output=0, commands=0)
            if wl.get("vars") or wl.get("dpk"):
                h[0] = ["new", dict(({"vars": wl["vars"]} if wl.get("vars") else {}), **({"dynamic_path_key_to_int": True} if wl.get("dpk") else {}))]
        else:
            wl = workload.make(r, carry=False, output=0.3 if r.random() < 0.4 else 0, group_output=0.1, commands=0)
            if r.random() < 0.3:
                c = r.choice(["match", "newfield", "group", "macro", "variable"])
                (scope, name), snippet = scenario.CUSTOM[c]
                wl["template"] += "\n" + snippet
                wl["data"] = [d + "cust {} n {}\n".format(r.choice(["x", ""]) + workload.w(r), r.randrange(20)) for d in wl["data"]]
                if not any(o[0] == "fn" and o[2] == name for o in h):
                    h.insert(1, ["fn", scope, name, r.choice([name, scenario.ALT.get(name, name)])])
                    if r.random() < 0.3:
                        # replaced before a template uses it
                        h.insert(1, ["fn", scope, name, r.choice([name, scenario.ALT.get(name, name)])])
        if r.random() < 0.2:
            # a table that changes during the history
            wl["template"] += '\n<group name="lkg*">\nlkq {{{{ q | lookup("lk9"{}) }}}}\n</group>\n'.format(r.choice(["", ', add_field="lf"']))
            wl["data"] = [d + "lkq {}\n".format(r.choice(["alpha", "core", workload.w(r)])) for d in wl["data"]]
            lks = True
            if r.random() < 0.8:
                h.insert(1, lookup(r, "lk9"))
        text = wl["template"]
        if "<output" not in text and "<template" not in text and r.random() < 0.15:
            # a file named after the data
            text += '\n<output returner="file" url="./wout/" filename="w_{{{}}}.txt" format="{}"/>\n'.format(
                r.choice(["extra", "site0"] + [w for w in ("hn0", "hn1", "fn0") if w + " =" in text] * 2), r.choice(["json", "raw", "pprint"]))
            if "hn0 =" in text or "hn1 =" in text:
                v = "hn0" if "hn0 =" in text else "hn1"
                text += '<group name="{v}z*">\nhz{{{{ z | default("{v}") }}}} w {{{{ x }}}}\n{{{{ k | set("{v}") }}}}\n</group>\n'.format(v=v)
                wl["data"] = [workload.w(r) + "#show\n" * (r.random() < 0.8) + d + "hz{} w {}\n".format(workload.w(r), workload.w(r)) for d in wl["data"]]
        pt = "<output" not in text and "<template" not in text and r.random() < 0.12
        info = {"out": "<output" in text, "pt": pt, "own": [], "groups": group_names(text)}
        if r.random() < 0.25:
            # data of the template itself
            d = "\n" + "".join(wl["data"][:1]) + "\n"
            if "<" not in d and "&" not in d and d.strip():
                iname = r.choice(["in1", "own"])
                text += '\n<input name="{}" load="text">{}</input>\n'.format(iname, d)
                info["own"] = [[iname, d]]
        if pt:
            text = '<template name="{}" results="per_template">\n{}\n</template>'.format(nm, text)
            info["own_text"] = True
        tinfo[nm] = info
        op = ["tmpl", text, nm]
        datas += wl["data"] or ["none\n"]
        if len(names) > 1 and nm != names[0] and r.random() < 0.25:
            late.append(op)
        else:
            h.append(op)
    paths = ["d/f{}.txt".format(i) for i in range(2)] + ["g/x.txt"]
    n = r.randrange(5, 26)
    while n > 0:
        n -= 1
        k = r.random()
        tn = r.choice(names + ["_all_"] * 2 + (["nosuch"] if r.random() < 0.1 else []))
        if k < 0.26:
            h.append([r.choice(["input", "input", "input", "set_input"]), gen_input(r, datas, paths, names, tn, tinfo)])
        elif k < 0.36:
            h.append(["write", r.choice(paths), r.choice(datas)])
        elif k < 0.38:
            h.append(["rm", r.choice(paths)])
        elif k < 0.58:
            h.append(["parse"])
        elif k < 0.74:
            kw = {}
            if r.random() < 0.6:
                kw["structure"] = r.choice(["list", "dictionary", "flat_list"])
            if r.random() < 0.3:
                kw["templates"] = r.choice([r.choice(names), [r.choice(names)], list(reversed(names))])
            if r.random() < 0.2:
                kw["format"] = r.choice(["json", "yaml", "raw", "pprint"])
            h.append(["result", kw])
        elif k < 0.81:
            h.append(["clear", {"templates": r.choice([r.choice(names), names])} if r.random() < 0.3 else {}])
        elif k < 0.87:
            h.append(["clear_input", {"template_name": tn} if r.random() < 0.5 else {}])
        elif k < (0.88 if lks else 0.91):
            h.append(["vars", {r.choice(["extra", "site0", "dv0", "ovar"]): workload.w(r)}])
        elif k < 0.95:
            h.append(lookup(r, r.choice(["lk0", "lk9", "lk9"])))
        elif k < 0.97 and late:
            h.append(late.pop())
        else:
            h.append(r.choice([["get_template"], ["load"]]))
    h += [["parse"], ["result", {}]]
    return {"history": h, "tinfo": tinfo}


def lookup(r, name):
    return ["lookup", name, repr({k: r.choice([{"owner": workload.w(r)}, workload.w(r)]) for k in ("alpha", "core") if r.random() < 0.8})]


def group_names(text):
    return [x.split('"', 1)[0].split(".")[0].rstrip("*") for x in text.split('\n<group name="')[1:]]


def gen_input(r, datas, paths, names, tn, tinfo):
    k = r.random()
    i = {"data": r.choice(datas), "template": tn}
    if k < 0.25:
        i["data"] = r.choice(paths)
    elif k < 0.33:
        i["data"] = r.choice(["d", "d/"])
    if r.random() < 0.3:
        i["name"] = r.choice(["in1", "in2"])
    if r.random() < 0.15 and tn in tinfo and tinfo[tn]["groups"]:
        i["groups"] = [r.choice(tinfo[tn]["groups"])]
    return i


# ------------------------------------------------------------------ the model
class Unknown(Exception):
    pass


class Model:
    """templates, inputs and results as plain lists; single results come from fresh parsers"""

    def __init__(self, tinfo):
        self.settings = []
        self.tinfo = tinfo
        self.t = []          # [name, text]
        self.inputs = {}     # template index -> {input name: [data, groups]}
        self.results = {}
        self.acc = {}        # accumulated datums of templates with outputs
        self.unknown = set()
        self.memo = {}

    def fresh(self, ti, inputs):
        """the real code, a new object with the same settings, given inputs"""
        name, text = self.t[ti]
        key = (ti, repr([o for o in self.settings if o[0] != "tmpl"]), repr([(i, self.content(i["data"])) for i in inputs]))
        if key in self.memo:
            return self.memo[key]
        if any(i["kind"] == "text" and os.path.exists(i["data"]) for i in inputs):
            # text when it was added, the name of a file now
            if len(inputs) > 1:
                raise Unknown()
            here = os.getcwd()
            os.makedirs("../empty", exist_ok=True)
            os.chdir("../empty")
            try:
                return self.fresh(ti, inputs)
            finally:
                os.chdir(here)
        ops = self.plain(text, name)
        s = session.Session(ops, {})
        try:
            while not s.done():
                s.i += 1
                s.do(s.script[s.i - 1])
            s.p.clear_input()
            for i in inputs:
                s.do(["input", i])
            s.do(["parse"])
            res = ("ok", s.p.result()[0])
        except Exception as e:
            res = ("raised", type(e).__name__)
        self.memo[key] = res
        return res

    def plain(self, text, name):
        """the same settings without later calls: variables for the constructor, later variables and tables as tags"""
        if not any("<" + t in text for t in ("group", "grp", "g ", "g>", "input", "in ", "i ", "vars", "v ", "v>", "variables", "lookup", "macro", "output", "out ", "o ", "extend", "doc")):
            # only lines, a tag would change what they mean
            return [op for op in self.settings if op[0] != "tmpl" or op[1] == text and op[2] == name]
        ops, tags, mine = [], [], False
        for op in self.settings:
            if op[0] == "tmpl":
                if op[1] == text and op[2] == name:
                    mine = True
                    ops.append(list(op))
            elif op[0] == "vars" and not mine:
                ops[0] = ["new", dict(ops[0][1], vars=dict(ops[0][1].get("vars") or {}, **op[1]))]
            elif op[0] == "vars":
                tags.append("<vars>\n" + "".join('{} = {!r}\n'.format(*i) for i in op[1].items()) + "</vars>")
            elif op[0] == "lookup" and mine and eval(op[2]):
                tags.append('<lookup name="{}">\n'.format(op[1]) + "".join('{} = {!r}\n'.format(*i) for i in eval(op[2]).items()) + "</lookup>")
            else:
                ops.append(op)
        if tags:
            t = ops[[o[0] for o in ops].index("tmpl")]
            tags = "\n" + "\n".join(tags)
            if text.rstrip().endswith("</template>"):
                t[1] = text.rstrip()[:-len("</template>")] + tags + "\n</template>"
            else:
                t[1] = text + tags
        return ops

    @staticmethod
    def content(d):
        if isinstance(d, str) and os.path.isfile(d):
            with open(d, "rb") as f:
                return ("file", d, f.read())
        return ("data", d)

    def names(self, sel):
        sel = [sel] if isinstance(sel, str) else sel
        return [i for i, (n, _) in enumerate(self.t) if not sel or n in sel]

    def targets(self, tn):
        return [i for i, (n, _) in enumerate(self.t) if tn == "_all_" or n == tn]

    def do(self, op):
        k = op[0]
        if k in ("new", "fn", "lookup", "vars"):
            if k == "fn":
                # the latest function of a name is in force
                self.settings = [o for o in self.settings if o[0] != "fn" or o[1:3] != op[1:3]]
            if k == "lookup":
                # so is the latest table
                self.settings = [o for o in self.settings if o[0] != "lookup" or o[1] != op[1]]
            if k == "vars":
                # and the latest value, templates added in between may have their own
                n = max([j for j, o in enumerate(self.settings) if o[0] == "tmpl"] or [-1])
                self.settings = [o for j, o in enumerate(self.settings) if o[0] != "vars" or j < n or set(o[1]) - set(op[1])]
            self.settings.append(op)
            if k in ("lookup", "vars"):
                # raw results under older settings cannot be formatted again by a fresh object
                self.unknown |= {i for i in range(len(self.t)) if self.info(i)["out"] and self.acc[i]}
        elif k == "tmpl":
            self.settings.append(op)
            i = len(self.t)
            self.t.append([op[2], op[1]])
            self.inputs[i] = {}
            self.results[i] = []
            self.acc[i] = []
            for iname, d in self.info(i)["own"]:
                self.inputs[i][iname] = [[("text", d)], ["all"]]
        elif k in ("input", "set_input"):
            a = op[1]
            if k == "set_input":
                self.clear_input(a["template"])
            d = a["data"]
            if os.path.isfile(d):
                items = [("path", d)]
            elif os.path.isdir(d):
                items = [("path", os.path.join(d, f)) for f in sorted(os.listdir(d))]
            else:
                items = [("text", d)]
            if items:
                for i in self.targets(a["template"]):
                    cur = self.inputs[i].setdefault(a.get("name", "Default_Input"), [[], []])
                    for it in items:
                        if it not in cur[0]:
                            cur[0].append(it)
                    cur[1] += a.get("groups") or ["all"]
        elif k == "clear_input":
            self.clear_input((op[1] if len(op) > 1 else {}).get("template_name", "_all_"))
        elif k == "clear":
            for i in self.names((op[1] if len(op) > 1 else {}).get("templates")):
                self.results[i] = []
                self.acc[i] = []
                self.unknown.discard(i)
        elif k == "parse":
            return self.parse()
        elif k == "result":
            return self.result(op[1])
        elif k == "get_template":
            out = []
            for n, t in self.t:
                f = session.Session([self.settings[0], ["tmpl", t, n]], {})
                f.step(), f.step()
                out.append(f.p.get_template())
            return "ok", core.canon("\n".join(out))
        elif k == "load":
            raise Unknown()
        elif k in ("write", "rm"):
            if k == "rm" and not os.path.exists(op[1]):
                return "raised", "FileNotFoundError"
            session.Session([op], {}).do(op)
        return "ok", core.canon(None)

    def info(self, i):
        return self.tinfo[self.t[i][0]]

    def clear_input(self, tn):
        for i in self.targets(tn):
            self.inputs[i] = {}

    def flat(self, i):
        out = []
        for name, (items, groups) in self.inputs[i].items():
            g = None if "all" in groups else sorted(set(groups))
            for kind, d in items:
                x = {"data": d, "name": name, "template": self.t[i][0], "kind": kind}
                if g:
                    x["groups"] = g
                out.append(x)
        return out

    def parse(self):
        for i in range(len(self.t)):
            for x in self.flat(i):
                if x["kind"] == "path" and not os.path.isfile(x["data"]):
                    # sizes are taken before anything is parsed
                    self.unknown |= set(range(len(self.t)))
                    return "raised", "FileNotFoundError"
        failed, unsure = None, False
        for i in range(len(self.t)):
            fl = self.flat(i)
            new = []
            if self.info(i)["pt"]:
                r = self.fresh(i, fl)
                if r[0] != "ok":
                    failed = failed or r
                else:
                    self.results[i] = r[1]
                continue
            for x in fl:
                if self.info(i)["out"]:
                    y = dict(x, name="acc{}".format(len(self.acc[i])), data=x["data"] if x["kind"] == "text" else None)
                    if x["kind"] != "text":
                        self.unknown.add(i)
                    self.acc[i].append(y)
                    continue
                r = self.fresh(i, [x])
                if r[0] != "ok":
                    failed = failed or r
                    break
                if not isinstance(r[1], list) or len(r[1]) != 1:
                    raise Unknown()
                new.append(r[1][0])
            if self.info(i)["out"]:
                if i not in self.unknown and "groups" not in str([list(x) for x in self.acc[i]]):
                    r = self.fresh(i, self.acc[i])
                    if r[0] != "ok":
                        failed = failed or r
                    else:
                        self.results[i] = r[1]
                else:
                    self.unknown.add(i)
                    unsure = True
            else:
                self.results[i] = self.results[i] + new
        if failed:
            self.unknown |= set(range(len(self.t)))
            return failed
        if unsure:
            # outputs of results that a fresh object cannot reproduce
            self.unknown |= set(range(len(self.t)))
            raise Unknown()
        return "ok", core.canon(None)

    def result(self, kw):
        sel = self.names(kw.get("templates"))
        if self.unknown & set(sel):
            raise Unknown()
        st = kw.get("structure", "list")
        fmt = kw.get("format")
        rs = [self.results[i] for i in sel]
        if fmt == "json":
            if st == "flat_list":
                raise Unknown()
            try:
                rs = [core.unordered(json.loads(json.dumps(r))) for r in rs]
            except TypeError:
                raise Unknown()
        elif fmt in ("yaml", "pprint"):
            raise Unknown()
        if st == "list":
            return "ok", core.canon(rs)
        if st == "dictionary":
            return "ok", core.canon({self.t[i][0]: x for i, x in zip(sel, rs)})
        out = []
        for x in rs:
            if isinstance(x, list):
                for it in x:
                    if isinstance(it, list):
                        out += it
                    else:
                        out.append(it)
            else:
                out.append(x)
        return "ok", core.canon(out)


def play_model(case, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    m = Model(case["tinfo"])
    out = []
    for op in case["history"]:
        try:
            out.append(list(m.do(op)))
        except Unknown:
            if op[0] == "parse":
                m.unknown |= set(range(len(m.t)))
            out.append(None)
    return out


class S(session.Session):
    def do(self, op):
        if op[0] == "parse":
            return self.p.parse()
        r = session.Session.do(self, op)
        if op[0] == "result" and op[1].get("format") == "json" and op[1].get("structure") != "flat_list":
            if isinstance(r, dict):
                return {k: core.unordered(json.loads(v)) for k, v in r.items()}
            return [core.unordered(json.loads(v)) for v in r]
        return r


def play_real(case, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    s = S(case["history"], {})
    kept = []
    while not s.done():
        s.step()
        kept.append(s.finish())
        if kept[-1]:
            break
    return {"out": [list(o) for o in s.out], "kept": kept[-1], "at": s.i - 1}


def run(case, env):
    ref = core.isolated(play_model, case, env.scratch("run"), timeout=env.timeout)
    if ref[0] != "ok":
        return env.harness("model: {}".format(ref))
    out = core.isolated(play_real, case, env.scratch("run"), timeout=env.timeout)
    if out[0] == "timeout":
        return env.violation("hang", "history does not end")
    if out[0] != "ok":
        return env.harness("history: {}".format(out))
    ref, res = ref[1], out[1]
    kinds = [op[0] for op in case["history"]]
    env.add({"log": core.digest(repr(kinds), repr(res["out"])), "steps": len(kinds),
             "extra": {"calls": len(kinds), "parses": kinds.count("parse"), "results_compared": sum(k == "result" and e is not None for k, e in zip(kinds, ref)),
                       "results_not_predicted": sum(k == "result" and e is None for k, e in zip(kinds, ref)), "raising_calls": sum(o[0] == "raised" for o in res["out"])}},
            nontrivial=kinds.count("parse") > 1 and any(k in ("clear", "clear_input", "set_input", "input", "write", "vars", "lookup", "tmpl")
                                                        for k in kinds[kinds.index("parse"):]))
    for j, (a, b) in enumerate(zip(ref, res["out"])):
        if a is not None and a[:2] != b[:2]:
            return env.violation("not-as-documented", "call {} {}: {}".format(j, core.short(str(case["history"][j]), 300), diff(a, b)), res={"tail": tail(case, res)})
    if res["kept"]:
        return env.violation("result-or-argument-modified", "call {} {}: {}".format(res["at"], core.short(str(case["history"][res["at"]]), 200), res["kept"]), res={"tail": tail(case, res)})
    return env.ok()


def tail(case, res):
    return [[core.short(str(op), 120), core.short(str(o), 200)] for op, o in zip(case["history"], res["out"])][-20:]


def diff(a, b):
    if a[0] == b[0] == "ok":
        return core.first_diff(a[1], b[1])
    return "expected {} got {}".format(core.short(str(a), 300), core.short(str(b), 300))


def shrink(case):
    for c in session.shrink_scripts({"scripts": [case["history"]]}):
        if not c["scripts"]:
            continue
        h = c["scripts"][0]
        bad = False
        for op in h:
            if op[0] == "tmpl":
                own = case["tinfo"][op[2]]["own"]
                if bool(own) != ("<input" in op[1]) or case["tinfo"][op[2]]["out"] != ("<output" in op[1]):
                    bad = True
                try:
                    ElementTree.XML("<template>\n" + op[1] + "\n</template>")
                except ElementTree.ParseError:
                    bad = True
        if not bad:
            yield dict(case, history=h)


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
