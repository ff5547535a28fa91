"""A parser's life as data: a script of API calls, run one call at a time."""
import copy
import json
import os
import random
import re

from . import core, scenario, workload
from .core import canon

STRUCT = ["list", "list", "dictionary", "flat_list"]


def shared_objects(spec):
    """objects that the caller passes to several parsers"""
    return {k: copy.deepcopy(v) for k, v in sorted((spec or {}).items())}


class Session:
    def __init__(self, script, shared, T=None):
        self.script = script
        self.shared = shared
        self.T = T
        self.p = None
        self.i = 0
        self.kept = []
        self.out = []
        self.text = canon(script)

    def done(self):
        return self.i >= len(self.script)

    def ref(self, v):
        if isinstance(v, dict) and set(v) == {"@"}:
            return self.shared[v["@"]]
        return v

    def step(self):
        op = self.script[self.i]
        self.i += 1
        o = scenario.outcome(self.do, op)
        # messages may hold addresses and line texts
        self.out.append(o[:2])
        return o

    def do(self, op):
        k, a = op[0], op[1:]
        p = self.p
        if k == "new":
            T = self.T or scenario.import_ttp().ttp
            kw = dict(a[0])
            if "vars" in kw:
                kw["vars"] = self.ref(kw["vars"])
            self.p = T(log_level="CRITICAL", **kw)
            return None
        if k == "fn":
            return p.add_function(scenario.FUNCS[a[2]], scope=a[0], name=a[1])
        if k == "tmpl":
            return p.add_template(a[0], **({"template_name": a[1]} if len(a) > 1 and a[1] else {}))
        if k == "lookup":
            return p.add_lookup(*a)
        if k == "vars":
            return p.add_vars(self.ref(a[0]))
        if k in ("input", "set_input"):
            i = dict(a[0])
            kw = {"template_name": i.get("template", "_all_")}
            if i.get("name"):
                kw["input_name"] = i["name"]
            if i.get("groups"):
                kw["groups"] = list(i["groups"])
            return getattr(p, "add_input" if k == "input" else "set_input")(self.ref(i["data"]), **kw)
        if k == "parse":
            return p.parse(one=True)
        if k == "result":
            kw = dict(a[0]) if a else {}
            r = p.result(**kw)
            self.kept.append((r, canon(r)))
            return r
        if k == "clear":
            return p.clear_result(**(a[0] if a else {}))
        if k == "clear_input":
            return p.clear_input(**(a[0] if a else {}))
        if k == "load":
            return p.get_input_load()
        if k == "get_template":
            return p.get_template()
        if k == "quick":
            a = a[0]
            kw = {"log_level": "CRITICAL"}
            if "vars" in a:
                kw["vars"] = self.ref(a["vars"])
            r = scenario.import_pkg().quick_parse(a["data"], a["template"], kw, {"one": True}, dict(a.get("result") or {}))
            self.kept.append((r, canon(r)))
            return r
        if k == "write":
            d = os.path.dirname(a[0])
            if d:
                os.makedirs(d, exist_ok=True)
            with open(a[0], "w", encoding="utf-8") as f:
                f.write(a[1])
            return None
        if k == "rm":
            os.unlink(a[0])
            return None
        if k == "cat":
            out = []
            if os.path.isfile(a[0]):
                with open(a[0], "rb") as fo:
                    return fo.read()
            for root, dirs, files in os.walk(a[0]):
                dirs.sort()
                for f in sorted(files):
                    with open(os.path.join(root, f), "rb") as fo:
                        out.append((os.path.join(root, f), fo.read()))
            return out
        if k == "del":
            self.p = None
            return None
        raise core.HarnessError("unknown op {}".format(op))

    def finish(self):
        """earlier results must be what they were when handed out"""
        for i, (r, c) in enumerate(self.kept):
            now = canon(r)
            if now != c:
                return "result fetched by call {} changed later: {}".format(i, core.first_diff(c, now))
        if canon(self.script) != self.text:
            return "object passed to a call changed later: {}".format(core.first_diff(self.text, canon(self.script)))
        return None


def run_alone(script, shared_spec, scratch, setup=None):
    """reference: the script alone in this (forked) process"""
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    if setup:
        setup()
    shared = shared_objects(shared_spec)
    before = canon(shared)
    s = Session(script, shared)
    while not s.done():
        s.step()
    return {"out": s.out, "kept": s.finish(), "shared": None if canon(shared) == before else core.first_diff(before, canon(shared))}


# ------------------------------------------------------------------ generation
def gen_script(r, tag, carry=True, shared=(), files=True, fail=0.15, corpus=0.3, rounds=None, outputs=True, shared_out=False, custom=0.4, like=None, fout=0.2):
    """one parser's script; ``tag`` keeps its files apart from other scripts'"""
    wl = None
    sibling = like is not None and like.get("wl")
    if sibling:
        # the same lines and names as another script, other values
        wl = workload.make(r, carry=carry, output=0.3 if outputs else 0, group_output=0.15 if outputs else 0, like=sibling["features"])
        if r.random() < 0.5:
            wl["data"] = list(sibling["data"])
    elif r.random() < corpus:
        wl = workload.from_corpus(r, forbid=("time",) if carry else ("time", "carry", "glookup"))
    else:
        wl = workload.make(r, carry=carry, output=0.3 if outputs else 0, group_output=0.15 if outputs else 0)
    corp = wl["features"][0].startswith("corpus")
    if like is not None and not corp and not sibling:
        like["wl"] = {"features": wl["features"], "data": list(wl["data"])}
    text, data = wl["template"], list(wl["data"]) or ["none\n"]
    s = []
    kw = {}
    late = []
    v = dict(wl.get("vars") or {})
    if wl.get("dpk") or r.random() < 0.2:
        kw["dynamic_path_key_to_int"] = True
    usev = [x for x in shared if x.startswith("v")]
    if v:
        kw["vars"] = v
    elif usev and r.random() < 0.35:
        kw["vars"] = {"@": r.choice(usev)}
    elif usev and r.random() < 0.5:
        # variables added one call after the other, before templates are loaded
        late = [["vars", {"@": r.choice(usev)}]]
        if r.random() < 0.7:
            late.insert(r.randrange(2), ["vars", {"extra": workload.w(r), "only_" + tag: workload.w(r)}])
    elif r.random() < 0.4:
        kw["vars"] = {"extra": workload.w(r), "lst": [workload.w(r)], "site0": workload.w(r)}
    s.append(["new", kw])
    s += late
    cust = None
    if not corp and r.random() < custom:
        cust = k = r.choice(sorted(scenario.CUSTOM))
        (scope, name), snippet = scenario.CUSTOM[k]
        impl = r.choice([name, name, scenario.ALT.get(name, name)])
        if r.random() < 0.25:
            # replaced before it is used
            s.append(["fn", scope, name, r.choice([name, scenario.ALT.get(name, name)])])
        s.append(["fn", scope, name, impl])
        text = text + "\n" + snippet
        data = [d + "cust {} n {}\n".format(r.choice(["x", ""]) + workload.w(r), r.randrange(20)) for d in data]
    if not corp and r.random() < 0.15:
        # a built-in replaced for this parser only
        s.append(["fn", "match", r.choice(["upper", "to_int", "contains", "joinmatches"][:2]), "cf_shadow"])
    if not corp and r.random() < 0.35:
        text += """
<macro>
def common(data):
    if "boom" in data:
        raise ValueError(data)
    return data + "_{tag}"
</macro>
<group name="com*">
common {{{{ c | macro("common") | let("who", "{tag}") }}}} {{{{ d | record("REC") }}}}
{{{{ rr | set("REC") }}}}
{{{{ lv | set("extra") }}}}
{{{{ l0 | set("only_p0") }}}}
{{{{ l1 | set("only_p1") }}}}
</group>
""".format(tag=tag)
        for i in range(len(data)):
            b = "boom" if r.random() < fail else workload.w(r)
            data[i] += "common {} {}\n".format(b, workload.w(r))
    if outputs and not corp and r.random() < fout and "output" not in wl["flags"]:
        url, fn = ("outs", "f_{}.txt".format(tag)) if shared_out else ("out_" + tag, "f.txt")
        text += '\n<output name="fo" returner="file" format="{}" url="{}" filename="{}"/>\n'.format(r.choice(["json", "yaml", "pprint"]), url, fn)
        s_files = url + "/" + fn if shared_out else url
    else:
        s_files = None
    if carry and not corp and r.random() < 0.1:
        text = '<template name="pt" results="per_template">\n' + text + "\n</template>"
    names = [None]
    if r.random() < 0.15 and "<template" not in text:
        names = ["T1", "T2"]
        s.append(["tmpl", text, "T1"])
        w2 = workload.make(r, carry=carry, nfeat=1, output=0.2)
        s.append(["tmpl", w2["template"], "T2"])
        data += w2["data"]
    else:
        s.append(["tmpl", text])
    if r.random() < 0.2:
        s.append(["lookup", "lk9", "{'alpha1': 'one', 'core2': {'x': 1}}"])
    body = []
    for i, d in enumerate(data):
        inp = {"data": d}
        if files and r.random() < 0.2:
            path = "in_{}/f{}.txt".format(tag, i)
            body.append(["write", path, d])
            inp["data"] = path
        if cust == "input" and r.random() < 0.8:
            inp["name"] = "sin"
            if r.random() < 0.5:
                inp["data"] = d.split("\n")
        elif r.random() < 0.2:
            inp["name"] = r.choice(["in1", "in2"])
        if names[0] and r.random() < 0.4:
            inp["template"] = r.choice(names)
        body.append(["input", inp])
    cut = r.randrange(len(body) + 1) if r.random() < 0.4 else len(body)
    s += body[:cut]
    nr = rounds or r.choice([1, 1, 2, 3])
    for j in range(nr):
        s.append(["parse"])
        s.append(["result", gen_result(r)])
        if j == 0:
            s += body[cut:]
        if j + 1 < nr or cut < len(body):
            for _ in range(r.randrange(3)):
                s.append(r.choice([["clear"], ["clear_input"], ["vars", {"site0": workload.w(r), "extra": workload.w(r)}],
                                   ["input", {"data": r.choice(data)}], ["set_input", {"data": r.choice(data), "template": "_all_"}], ["result", gen_result(r)],
                                   ["lookup", "lk9", "{'alpha1': '" + workload.w(r) + "'}"]]))
    if cut < len(body):
        s += [["parse"], ["result", gen_result(r)]]
    if s_files:
        s.append(["cat", s_files])
    if r.random() < 0.15:
        s.append(["load"])
    if r.random() < 0.15:
        # the one call shortcut, sometimes several times with the same template
        tm = [op[1] for op in s if op[0] == "tmpl"]
        for _ in range(r.choice([1, 1, 2, 3])):
            q = {"template": r.choice(tm), "data": r.choice(data) or "none\n", "result": gen_result(r)}
            if r.random() < 0.5:
                q["vars"] = {"extra": workload.w(r), "only_p0": workload.w(r), "lst": [workload.w(r)]}
            elif usev and r.random() < 0.5:
                q["vars"] = {"@": r.choice(usev)}
            s.insert(r.randrange(1, len(s) + 1), ["quick", q])
    return s, sorted(set(wl["flags"]))


def gen_result(r):
    kw = {}
    if r.random() < 0.4:
        kw["structure"] = r.choice(STRUCT)
    if r.random() < 0.2:
        kw["format"] = r.choice(["json", "yaml", "pprint", "raw"])
    elif r.random() < 0.15:
        kw["format"] = r.choice(["csv", "table", "tabulate", "json", "yaml"])
        if r.random() < 0.5:
            kw["missing"] = r.choice(["-", "none"])
        if r.random() < 0.5:
            kw["headers"] = r.sample(["a", "n", "name", "u", "b", "key"], r.choice([1, 2, 3]))
        if r.random() < 0.3:
            kw["functions"] = "dict_to_list(key_name='key')"
    return kw


def shrink_scripts(case, key="scripts"):
    """smaller cases: without a script, without a call, with less data"""
    ss = case[key]
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(case, **{key: ss[:i] + ss[i + 1:]})
    for i, s in enumerate(ss):
        for j in range(len(s) - 1, 0, -1):
            if s[j][0] in ("new",):
                continue
            yield dict(case, **{key: ss[:i] + [s[:j] + s[j + 1:]] + ss[i + 1:]})
    for i, s in enumerate(ss):
        for j, op in enumerate(s):
            if op[0] in ("input", "set_input") and isinstance(op[1].get("data"), str):
                lines = op[1]["data"].split("\n")
                if len(lines) > 2:
                    h = len(lines) // 2
                    for part in (lines[:h], lines[h:]):
                        n = [op[0], dict(op[1], data="\n".join(part) or "x")]
                        yield dict(case, **{key: ss[:i] + [s[:j] + [n] + s[j + 1:]] + ss[i + 1:]})
            if op[0] == "tmpl":
                for t in shrink_template(op[1]):
                    yield dict(case, **{key: ss[:i] + [s[:j] + [[op[0], t] + op[2:]] + s[j + 1:]] + ss[i + 1:]})


def shrink_template(text):
    if "<template" in text:
        return
    for tag in ("group", "macro", "vars", "output", "lookup"):
        parts = text.split("\n<" + tag)
        for gi in range(1, len(parts)):
            end = parts[gi].rfind("</" + tag + ">")
            n = len(tag) + 3
            if end < 0:
                end = parts[gi].find("/>")
                n = 2
            if end < 0:
                continue
            new = parts[:gi - 1] + [parts[gi - 1] + parts[gi][end + n:]] + parts[gi + 1:]
            t = ("\n<" + tag).join(new)
            if t.strip():
                yield t


# ------------------------------------------------------------------- twins
KEEP = {"returner", "format", "load", "method", "results", "url", "filename", "extensions", "include", "template", "template_name", "input", "groups", "name_", "scope", "file"}


def literals(text):
    """spans of template text that say how matches are treated: arguments of functions, values of
    attributes, text of lookups, variables and macros - not the lines to match"""
    spans = []
    for m in re.finditer(r"\{\{(.*?)\}\}", text):
        for q in re.finditer(r"\"([^\"]+)\"|'([^']+)'|(?<=[(,= ])(\d+)(?=[,)])", m.group(1)):
            g = q.lastindex
            spans.append((m.start(1) + q.start(g), m.start(1) + q.end(g)))
    for m in re.finditer(r"<(\w+)((?:\s+[\w]+\s*=\s*(?:\"[^\"]*\"|'[^']*'))+)\s*/?>", text):
        for a in re.finditer(r"(\w+)\s*=\s*(?:\"([^\"]*)\"|'([^']*)')", m.group(2)):
            g = a.lastindex
            if a.group(1) not in KEEP and a.group(1) != "name" and a.end(g) > a.start(g):
                spans.append((m.start(2) + a.start(g), m.start(2) + a.end(g)))
    for tag in ("lookup", "vars", "macro"):
        for m in re.finditer(r"<{0}\b[^>]*>(.*?)</{0}>".format(tag), text, re.S):
            for q in re.finditer(r"(?<![\w{])[a-z]+\d+\b|(?<![\w{}])\d+\b|\"([^\"{}\n]+)\"|'([^'{}\n]+)'", m.group(1)):
                g = q.lastindex or 0
                spans.append((m.start(1) + q.start(g), m.start(1) + q.end(g)))
    return sorted(set(spans))


def mutate(r, text, n, pool):
    """the same template with n of its literals changed"""
    for _ in range(n):
        ls = literals(text)
        if not ls:
            break
        a, b = r.choice(ls)
        old = text[a:b]
        words = [m for m in re.finditer(r"[A-Za-z_]+\d*|\d+", old)]
        if words and r.random() < 0.6:
            m = r.choice(words)
            x = m.group(0)
            new = str(int(x) + r.choice([1, 1, 2, 7])) if x.isdigit() else r.choice(pool + [x + "x", x[:-1] or "q", x.upper()])
            new = old[:m.start()] + new + old[m.end():]
        else:
            other = r.choice(ls)
            new = text[other[0]:other[1]] if r.random() < 0.5 else old + r.choice(["a", "1", "_z"])
        if "\n" not in new and '"' not in new and "'" not in new and "<" not in new:
            text = text[:a] + new + text[b:]
    return text


def twin(r, script, rename=None):
    """the same calls with other arguments of functions, other lookup rows, variables or macro constants - and the same data"""
    s = [json.loads(json.dumps(op)) for op in script]
    if rename:
        s = json.loads(json.dumps(s).replace(*rename))
    pool = sorted({m for op in s for m in re.findall(r"\b[a-z]+\d+\b", json.dumps(op))})[:60] or ["alpha1"]
    n = r.choice([1, 1, 2, 4, 8])
    for op in s:
        if op[0] == "tmpl":
            op[1] = mutate(r, op[1], n, pool)
        elif op[0] == "quick":
            op[1]["template"] = mutate(r, op[1]["template"], n, pool)
        elif op[0] == "lookup" and r.random() < 0.7:
            op[2] = re.sub(r"[a-z]+\d+", lambda m: r.choice(pool) if r.random() < 0.5 else m.group(0), op[2])
        elif op[0] == "vars" and r.random() < 0.7 and isinstance(op[1], dict):
            for k in sorted(op[1]):
                if isinstance(op[1][k], str) and re.fullmatch(r"[a-z]+\d+", op[1][k]) and r.random() < 0.5:
                    op[1][k] = r.choice(pool)
        elif op[0] == "new" and isinstance(op[1].get("vars"), dict) and "@" not in op[1]["vars"]:
            for k in sorted(op[1]["vars"]):
                if isinstance(op[1]["vars"][k], str) and re.fullmatch(r"[a-z]+\d+", op[1]["vars"][k]) and r.random() < 0.5:
                    op[1]["vars"][k] = r.choice(pool)
    return s
