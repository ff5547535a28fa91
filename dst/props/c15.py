"""C15: the command line tool does what the library does and never loses output silently."""
import ast
import io
import json
import logging
import os
import random
import re
import sys
import traceback

from .. import core, fs, procs, scenario, workload
from . import c08

ID = "C15"
RULE = ("seed -> data files and directories, a template (file, member of a python file, with inputs, macros, file and terminal outputs) and a command line; the tool runs in "
        "process, single or under the multi-process simulator, without faults and with faults of data and template files, of standard output and of workers; what it printed "
        "is decoded and compared with the library's results; non-trivial: data was found or a fault fired; distinct by hash of command line, operations, exit status and text")
REAL = ["cli_tool with argument parsing and logging setup", "whole ttp package", "io layers and real files below them"]
STUB = ["raw file reads and opens, standard output's raw stream (fault injecting seam)", "process scheduler, queues and CPU count in multi-process runs"]
QUICK, THOROUGH = 2000, 50000


def gen(seed, tier):
    r = random.Random(seed)
    multi = r.random() < 0.3
    wl = workload.make(r, carry=False, output=0.2 if r.random() < 0.5 else 0, group_output=0.1, datums=r.choice([1, 2, 3, 4]))
    files = {}
    ds = r.sample(["data", "more/sub", "in put"], r.choice([1, 1, 2]))
    for i, t in enumerate(wl["data"]):
        if r.random() < 0.3:
            t += r.choice(["café 中文 ", "plain", "\U0001f600 x"]) * r.randrange(1, 30) + "\n"
        b = t.encode("utf-8")
        if r.random() < 0.04:
            b += b"\xff\xfe\n"
        files["{}/{}".format(r.choice(ds), r.choice(["a", "b", "z"]) + str(i) + r.choice([".txt", ".log"]))] = b.hex()
    text = wl["template"]
    if r.random() < 0.25:
        text += '\n<macro>\ndef fails(data):\n    if "boom" in data:\n        raise {}(data)\n    return data\n</macro>\n<group name="fl*">\nfails {{{{ c | macro("fails") }}}}\n</group>\n'.format(
            r.choice(["ValueError", "KeyError", "SystemExit" if not multi else "ValueError", "MemoryError"]))
        for f in sorted(files):
            if r.random() < 0.5:
                files[f] += "fails {}\n".format("boom" if r.random() < 0.4 else workload.w(r)).encode().hex()
    if r.random() < 0.5:
        text += '\n<group name="cv*">\nshow {{ s }}\n{{ q | set("cliv") }}\n{{ w | set("clil") }}\n</group>\n'
        for f in sorted(files):
            files[f] += "show {}\n".format(workload.w(r)).encode().hex()
    if r.random() < 0.08:
        # much data: more to read and to print than fits any buffer
        text += '\n<group name="many*">\nmany {{ a }} {{ b }}\n</group>\n'
        f = r.choice(sorted(files))
        k = r.choice([60, 900, 2500])
        files[f] = (("many {} {}\n".format(workload.w(r), "long" * r.choice([5, 40]) + workload.w(r)) * k).encode() + bytes.fromhex(files[f])).hex()
    outs = []
    if "<output" not in text and r.random() < 0.3:
        for j in range(r.choice([1, 2])):
            ret = r.choice(["file", "terminal"])
            outs.append(ret)
            text += '\n<output name="o{}" format="{}" returner="{}"{}/>\n'.format(j, r.choice(["json", "pprint", "yaml"]), ret, ' url="out{}" filename="r.txt"'.format(j) if ret == "file" else "")
    names = []
    if "<output" not in text and r.random() < 0.25:
        w2 = workload.make(r, carry=False, nfeat=1, output=0, group_output=0)
        text = '<template name="one"{}>\n{}\n</template>\n<template name="two">\n{}\n</template>'.format(r.choice(["", ' results="per_template"']) if not multi else "", text, w2["template"])
        names = ["one", "two"]
    argv = []
    c = {"files": files, "multi": multi, "names": names}
    paths = sorted(files)
    own = r.random() < 0.2
    if own:
        base = r.choice(["", "./", "B/"])
        if base == "B/":
            files = c["files"] = {"B/" + k: v for k, v in files.items()}
        urls = r.sample(paths, r.randrange(1, len(paths) + 1)) if r.random() < 0.6 else [os.path.dirname(paths[0]) + "/"]
        tag = '<input name="own" load="json">\n{}\n</input>\n'.format(json.dumps({"url": urls}))
        if names:
            text = re.sub(r'(<template name="two">\n)', lambda m: m.group(1) + tag, text)
            text = re.sub(r'(<template name="one"[^>]*>\n)', lambda m: m.group(1) + tag, text)
        else:
            text = tag + text
        c["base"] = base
        if base:
            argv += [r.choice(["-dp", "--data-prefix"]), base]
    else:
        d = r.choice([r.choice(paths), os.path.dirname(r.choice(paths)) + r.choice(["", "/"])])
        if r.random() < 0.05:
            d = r.choice(["missing.txt", "data/nosuch.txt", "no/such/dir/"])
        c["data"] = d
        argv += [r.choice(["-d", "--data"]), d]
    c["tfile"] = "tmpl/t é.txt" if r.random() < 0.2 else "tmpl/t.txt"
    c["tname"] = None
    if r.random() < 0.2:
        c["tfile"] = "tmpl/many.py"
        c["tname"] = r.choice(["wanted", "other one"])
        argv += ["-tn", c["tname"]]
    c["template"] = text
    argv += [r.choice(["-t", "--template"]), c["tfile"] if r.random() > 0.03 else "tmpl/missing"]
    c["fmt"] = r.choice(["json", "json", "yaml", "raw", "pprint", "pprint", "JSON", "Yaml", None])
    if c["fmt"]:
        argv += [r.choice(["-o", "--outputter"]), c["fmt"]]
    c["structure"] = r.choice(["list", "list", "dictionary", "flat_list"])
    if c["structure"] != "list":
        argv += [r.choice(["-s", "--structure"]), c["structure"]]
    c["vars"] = None
    if ("cliv" in text or re.search(r"^\w+ = ", text, re.M)) and r.random() < 0.8:
        c["vars"] = {"cliv": r.choice(["plain", "it's", 'say "x"', "ü", "a'b'c", ["l", 1], {"k": "v"}, 5]), "clil": workload.w(r)}
        # names that the template gives values to as well
        for v in sorted(set(re.findall(r"^(\w+) = ", text, re.M)) - {"clil", "cliv"}):
            if r.random() < 0.5:
                c["vars"][v] = r.choice([workload.w(r), "gethostname", "getfilename", ["cl"]])
        t = json.dumps(c["vars"])
        if "'" not in t and "\\" not in t and r.random() < 0.5:
            t = t.replace('"', "'")
        argv += [r.choice(["-v", "--vars"]), t]
    c["ot"] = None
    if names and c["fmt"] and r.random() < 0.5:
        c["ot"] = r.choice([["one"], ["two"], ["one", "two"]])
        argv += [r.choice(["-ot", "--out-template"]), r.choice([",", ", "]).join(c["ot"])]
    k = r.random()
    c["both"] = False
    if multi:
        argv += ["--multi"]
        if r.random() < 0.03:
            argv += ["--one"]
            c["both"] = True
    elif k < 0.5:
        argv += ["--one"]
    if r.random() < 0.2:
        argv += ["-l", r.choice(["ERROR", "critical", "WARNING", "INFO", "nonsense"])]
    if r.random() < 0.15:
        argv += ["-lf", "log.txt"]
    c["argv"] = argv
    c["faults"] = []
    if not multi:
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            c["faults"].append({"frac": r.random(), "kind": r.choice(["EIO", "EIO", "EACCES", "ENOENT", "EMFILE", "short", "vanish", "vanish", "interrupt", "memory"])})
        if r.random() < 0.2:
            c["faults"] = [{"out": r.choice([0, 1, 10, 100]), "kind": r.choice(["EIO", "ENOSPC", "EPIPE", "short"])}]
    else:
        for _ in range(r.choice([0, 0, 1, 2])):
            c["faults"].append(r.choice([{"kind": "kill", "worker": r.randrange(1, 4), "at": r.choice([1, 2, 3, 4, 5, 7])}, {"kind": "start_fails", "worker": r.randrange(1, 4)},
                                         {"kind": "interrupt", "at": r.randrange(1, 9)}]))
    c["kernel"] = {"cpus": r.choice([1, 2, 3, 4]), "pipe_cap": r.choice([None, None, 1, 2]), "uniform": r.choice([0.05, 0.5, 1.0]), "spurious": r.choice([0, 3])}
    c["sched_seed"] = r.randrange(1 << 30)
    c["sched"] = None
    return c


class RawOut(io.RawIOBase):
    """standard output's descriptor"""

    def __init__(self, fault):
        self.got = b""
        self.fault = fault
        self.fired = None
        # what descriptor 1 refers to while the data goes to ``got``
        fd = os.memfd_create("out")
        os.dup2(fd, 1)
        os.close(fd)
        self.at = self.where()

    @staticmethod
    def where():
        st = os.fstat(1)
        return st.st_dev, st.st_ino, st.st_rdev

    def fileno(self):
        return 1

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        f = self.fault
        if self.where() != self.at:
            # the descriptor leads elsewhere now
            return len(b)
        if f and f["kind"] == "short":
            self.fired = "out-short"
            b = b[:max(1, f["out"])]
        elif f and len(self.got) + len(b) > f["out"]:
            part = b[:max(0, f["out"] - len(self.got))]
            self.got += part
            self.fired = "out-" + f["kind"]
            raise OSError(fs.ERR[f["kind"]], os.strerror(fs.ERR[f["kind"]]))
        self.got += b
        return len(b)


def prepare(case, d):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    for p, h in case["files"].items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(bytes.fromhex(h))
    os.makedirs("tmpl")
    with open(case["tfile"], "w", encoding="utf-8") as f:
        if case["tname"]:
            f.write("{!r}\n".format({"decoy": "decoy {{ x }}", case["tname"]: case["template"], "zz": "zz {{ y }}"}))
        else:
            f.write(case["template"])


def tree():
    out = {}
    for root, dirs, files in os.walk("."):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if not p.startswith("./tmpl/") and p != "./log.txt":
                with open(p, "rb") as h:
                    out[p] = h.read()
    return out


def library(case, d):
    """what the library returns for the same request"""
    prepare(case, d)
    T = scenario.import_ttp().ttp
    if case.get("data") and not os.path.exists(case["data"]) or case["both"] or "tmpl/missing" in case["argv"]:
        return {"raised": "input error"}

    def go():
        p = T(log_level="CRITICAL", base_path=case.get("base", ""), vars=dict(case["vars"] or {}))
        p.add_template(case["template"])
        if case.get("data"):
            p.set_input(case["data"])
        p.parse(one=True)
        return p
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        p = go()
        text = sys.stdout.getvalue()
    except (Exception, SystemExit) as e:
        return {"raised": type(e).__name__ + " " + str(e)[:200]}
    finally:
        sys.stdout = out
    res = p.result(structure=case["structure"], templates=case["ot"])
    res = {"res": res, "text": text, "tree": tree(), "raised": None}
    return res


def tool(case, faults, d):
    """the tool in this process; returns what a shell would see"""
    prepare(case, d)
    mod = scenario.import_ttp()
    plan = None
    kernel = None
    before = tree()
    outf = [f for f in faults if "out" in f]
    raw = RawOut(outf[0] if outf else None)
    err = io.StringIO()
    sys.argv = ["ttp"] + list(case["argv"])
    old = sys.stdout, sys.stderr
    status = 0
    sim = None
    res = {"violation": None}
    if case["multi"]:
        ch = core.Choices(case["sched_seed"], case["sched"])
        kernel = procs.Kernel(ch, cpus=case["kernel"]["cpus"], faults=[dict(f) for f in faults], pipe_cap=case["kernel"]["pipe_cap"],
                              uniform=case["kernel"]["uniform"], spurious=case["kernel"]["spurious"])
        kernel.activate()
    else:
        class Data(fs.Plan):
            def __call__(self, op, path, size):
                rel = os.path.relpath(path, self.root)
                if op not in ("open-r", "read", "listdir") or rel.startswith(("out", "log.txt")):
                    return None
                return fs.Plan.__call__(self, op, path, size)

            def action(self, do, op, path, size):
                if do[0] == "raise":
                    def boom(p):
                        raise {"interrupt": KeyboardInterrupt, "memory": MemoryError}[do[1]]()
                    return ("do", boom)
                if do[0] == "vanish" and op == "listdir":
                    return None
                return fs.Plan.action(self, do, op, path, size)
        plan = Data(d, [dict(f) for f in faults if "index" in f])
        sim = fs.Sim(d, plan)
    try:
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw), encoding="utf-8", write_through=False)
        sys.stderr = err
        try:
            try:
                if sim:
                    with fs.active(sim):
                        mod.cli_tool()
                else:
                    mod.cli_tool()
            except SystemExit as e:
                if e.code is None:
                    status = 0
                elif isinstance(e.code, int):
                    status = e.code & 0xFF
                else:
                    err.write("{}\n".format(e.code))
                    status = 1
            except core.Violation as v:
                res["violation"] = [v.kind, v.detail]
            except BaseException as e:
                if isinstance(e, core.HarnessError):
                    raise
                err.write("Traceback {}: {}\n".format(type(e).__name__, str(e)[:300]))
                status = 1
            # end of the interpreter
            try:
                if not sys.stdout.closed:
                    sys.stdout.flush()
            except OSError as e:
                err.write("Exception ignored {}\n".format(e))
                status = 120
                try:
                    sys.stdout.detach()
                except Exception:
                    pass
        finally:
            sys.stdout, sys.stderr = old
        if kernel is not None and not res["violation"]:
            kernel.drain()
            if kernel.leftovers():
                res["violation"] = ["leftover-workers", kernel.describe()]
    finally:
        if kernel is not None:
            res["choices"] = kernel.ch.taken if hasattr(kernel, "ch") else ch.taken
            res["fired"] = dict(kernel.fired)
            res["now"] = kernel.now
            res["tail"] = [list(map(str, e)) for e in kernel.log[-25:]]
            klog = kernel.loghash()
            kernel.deactivate()
        else:
            klog = core.digest(repr(plan.log))
            res["fired"] = {}
            for f in plan.fired:
                res["fired"][f[0]] = res["fired"].get(f[0], 0) + 1
            res["ops"] = len(plan.log)
            res["steps"] = len(plan.log)
    if raw.fired:
        res["fired"][raw.fired] = 1
    after = tree() if os.path.isdir(d) else {}
    res.update(status=status, out=raw.got, err=err.getvalue(), tree=after, log=core.digest(klog, status, raw.got, repr(case["argv"])))
    return res


def setup():
    procs.install()
    scenario.warm_libs()
    scenario.import_ttp()
    fs.install()


def decode(fmt, text, want):
    """None when the text represents exactly the wanted results"""
    fmt = fmt.lower()
    if fmt == "json":
        got = json.loads(text)
        return None if core.unordered(got) == core.unordered(json.loads(json.dumps(want))) else "json"
    if fmt == "yaml":
        import yaml
        got = yaml.load(text, Loader=yaml.UnsafeLoader)
        return None if core.unordered(got) == core.unordered(want) else "yaml"
    # raw and pprint print python literals
    try:
        got = ast.literal_eval(text.strip())
    except (ValueError, SyntaxError):
        import pprint
        return None if "".join(text.split()) in ("".join(str(want).split()), "".join(pprint.pformat(want, indent=4).split())) else fmt
    return None if core.unordered(got) == core.unordered(want) else fmt


def printable(fmt, want):
    """can the results be printed in this format at all"""
    try:
        if fmt.lower() == "json":
            json.dumps(want, sort_keys=True)
        elif fmt.lower() == "yaml":
            import yaml
            yaml.load(yaml.dump(want), Loader=yaml.UnsafeLoader)
    except Exception:
        return False
    return True


def check(case, lib, res, faulty):
    """None or (kind, detail)"""
    visible = res["status"] != 0 or bool(re.search(r"ERROR|CRITICAL|Traceback", res["err"]))
    if lib["raised"]:
        if res["status"] != 0 or visible:
            return None
        return ("failure-not-reported", "library fails ({}) but the tool ends with status 0 and no error, printed {}".format(lib["raised"], core.short(repr(res["out"]), 300)))
    fmt = case["fmt"]
    if fmt and not printable(fmt, lib["res"]):
        if res["status"] == 0:
            return ("unprintable-result", "printed {}".format(core.short(repr(res["out"]), 300)))
        return None
    if visible:
        if faulty or res["status"] == 0:
            return None if faulty else check_text(case, lib, res)
        return ("fails-without-fault", "status {}: {}".format(res["status"], res["err"][-400:]))
    return check_text(case, lib, res)


def check_text(case, lib, res):
    try:
        out = res["out"].decode("utf-8")
    except UnicodeDecodeError:
        return ("output-torn", core.short(repr(res["out"]), 300))
    if not out.startswith(lib["text"]):
        return ("output-differs", core.first_diff(lib["text"], out))
    rest = out[len(lib["text"]):]
    if not case["fmt"]:
        if rest.strip():
            return ("output-differs", "unexpected text {}".format(core.short(rest, 300)))
    else:
        try:
            bad = decode(case["fmt"], rest, lib["res"])
        except Exception as e:
            bad = "{}: {}".format(type(e).__name__, e)
        if bad:
            return ("output-differs", "{} wanted {} got {}".format(bad, core.short(core.canon(lib["res"]), 500), core.short(rest, 500)))
    if res["tree"] != lib["tree"] and not any(k in res["fired"] for k in ("vanish",)):
        k = [x for x in sorted(set(res["tree"]) | set(lib["tree"])) if res["tree"].get(x) != lib["tree"].get(x)]
        return ("files-differ", str(k))
    return None


def run(case, env):
    lib = core.isolated(library, case, env.scratch("run"), timeout=env.timeout)
    if lib[0] != "ok":
        if lib[0] == "exc" and "ickl" in lib[1]:
            return env.skip("result cannot leave the child process")
        return env.harness("library run: {}".format(lib))
    lib = lib[1]
    total = {}
    fired = {}
    log = []
    plans = [[]]
    if case["faults"]:
        plans.append(case["faults"])
    ops = 0
    for fl in plans:
        fl = [dict(f) for f in fl]
        if not case["multi"]:
            for f in fl:
                if "frac" in f:
                    f["index"] = 1 + int(f["frac"] * max(1, ops)) if ops else 1
                    k = f["kind"]
                    f["do"] = ("raise", k) if k in ("interrupt", "memory") else ("short", 3) if k == "short" else ("vanish",) if k == "vanish" else ("err", k)
        out = core.isolated(tool, case, fl, env.scratch("run"), timeout=env.timeout)
        if out[0] == "timeout":
            return env.violation("hang", "tool does not end")
        if out[0] != "ok":
            return env.harness("tool: {}".format(out))
        res = out[1]
        ops = res.get("ops", 0)
        log.append(res["log"])
        for k, v in res["fired"].items():
            fired[k] = fired.get(k, 0) + v
        total["status_{}".format(min(res["status"], 2) if res["status"] != 120 else 120)] = total.get("status_{}".format(min(res["status"], 2) if res["status"] != 120 else 120), 0) + 1
        env.add({"log": core.digest(*log), "fired": fired, "extra": total, "choices": res.get("choices"), "now": res.get("now", 0.0), "steps": res.get("steps", 0)},
                nontrivial=bool(fired) or bool(lib["raised"]) or len(core.canon(lib["res"])) > 12)
        if res["violation"]:
            return env.violation(*res["violation"], res=res)
        faulty = any(k not in ("short", "out-short") and not k.startswith("early") for k in res["fired"])
        bad = check(case, lib, res, faulty)
        if bad:
            return env.violation(bad[0], "ttp {} | faults {} | {}".format(" ".join(case["argv"]), res["fired"], bad[1]), res=res)
    return env.ok()


def shrink(case):
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    used = json.dumps(case["template"]) + " " + str(case.get("data"))
    for p in sorted(case["files"]):
        if len(case["files"]) > 1 and p not in used and os.path.dirname(p) not in (str(case.get("data")).rstrip("/"),):
            yield dict(case, files={k: v for k, v in case["files"].items() if k != p})
    for p, h in sorted(case["files"].items()):
        lines = bytes.fromhex(h).split(b"\n")
        if len(lines) > 2:
            for part in (lines[:len(lines) // 2], lines[len(lines) // 2:]):
                yield dict(case, files=dict(case["files"], **{p: b"\n".join(part).hex()}))
    a = case["argv"]
    for i, x in enumerate(a):
        if x in ("-l", "-lf"):
            yield dict(case, argv=a[:i] + a[i + 2:])
    from .. import session
    for t in session.shrink_template(case["template"]):
        yield dict(case, template=t)
    if case["multi"] and case["kernel"]["cpus"] > 1:
        yield dict(case, kernel=dict(case["kernel"], cpus=case["kernel"]["cpus"] - 1))
