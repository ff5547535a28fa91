"""C03: the plugin cache file can never change or break what a parser does."""
import importlib
import os
import random
import re
import shutil
import sys

from .. import core, fs, scenario, starters, workload

ID = "C03"
RULE = ("seed -> initial content of the cache folder, 1-4 real processes that create parsers and parse, a schedule of all their operations on the "
        "cache folder, disk errors, torn writes, crashes and a power failure; afterwards more processes start without faults; non-trivial: a fault "
        "fired, processes interleaved, or the folder did not start empty or complete; distinct by hash of the operation log and initial content")
REAL = ["whole ttp package", "pickle, real files below the seam", "real processes"]
STUB = ["process scheduling (file operations of all processes in a recorded order)", "disk: errors, short/torn writes, lost un-synced data"]
ASSUMPTIONS = ["The table of plugin functions is rebuilt from the unchanged package directory", "a process loses its own memory only when it is crashed"]
QUICK, THOROUGH = 1600, 40000
INIT = ["absent", "absent", "complete", "complete", "truncated", "zero_tail", "zeros", "flip", "flip", "empty", "garbage", "text", "pickle_other", "pickle_other",
        "pickle_evil", "old_version", "old_version", "old_truncated", "directory", "dangling", "leftovers", "appended", "swapped", "nofolder", "folder_is_file",
        "plain_pickle", "plain_torn", "alien", "alien", "alien"]
CACHE = "ttp_dict_cache.pickle"


def gen(seed, tier):
    r = random.Random(seed)
    wl = workload.make(r, carry=True, output=0.5, group_output=0.2, nfeat=r.choice([2, 3, 4]), datums=r.choice([1, 2]), only=[k for k in workload.FEATURES if k != "getters"])
    n = r.choice([1, 1, 2, 2, 2, 3, 4])
    faults = []
    for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
        faults.append({"p": r.randrange(n), "k": r.choice([1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 12, 14]), "do": r.choice([
            ["err", "EIO"], ["err", "ENOSPC"], ["err", "EACCES"], ["err", "EROFS"], ["err", "EMFILE"], ["err", "ENOENT"], ["err", "EDQUOT"], ["crash"], ["crash"],
            ["tear", r.randrange(1, 4000)], ["tear", r.randrange(4000)], ["torn", r.randrange(40000), r.choice(["ENOSPC", "EIO"])], ["short", r.choice([1, 100, 5000])]]),
            "sticky": r.random() < 0.25})
    pkg = []
    if r.random() < 0.15:
        pkg.append({"p": r.randrange(n), "op": r.choice(["listdir", "listdir", "open-r", "read"]), "k": r.randrange(1, 16), "do": ["err", r.choice(["EMFILE", "EIO", "EACCES", "ESTALE"])]})
    return {"template": wl["template"], "data": wl["data"], "vars": wl.get("vars") or {}, "init": r.choice(INIT), "arg": r.randrange(1 << 30), "n": n,
            "twice": r.random() < 0.2, "faults": faults, "pkg": pkg, "power": r.choice([0, 0, 0, r.randrange(1, 40)]), "bufsize": r.choice([None, None, 700, 5000]),
            "stay": r.choice([0, 0, 0.5, 0.9]), "envs": [r.randrange(3) for _ in range(n + 2)] if r.random() < 0.3 else None, "sched_seed": r.randrange(1 << 30), "sched": None}


def environment(case, base, i):
    """processes that share the cache folder can have other settings and folders"""
    e = case["envs"][i]
    d = os.path.join(base, "env{}".format(e))
    os.makedirs(os.path.join(d, "templates"), exist_ok=True)
    with open(os.path.join(d, "templates", "main.txt"), "w", encoding="utf-8") as f:
        f.write('<template name="{0}">\n{1}\n<vars name="env">\nnumber = "{0}"\n</vars>\n</template>'.format(e, case["template"]))
    os.environ["TTP_TEMPLATES_DIR"] = os.path.join(d, "templates")
    os.environ["TTP_TEMPLATES_FOLDER"] = os.path.join(d, "templates")
    os.environ["HOME"] = d
    os.chdir(d)
    return "main.txt"


def life(case, base=None, i=0):
    """what each process does"""
    T = scenario.import_ttp().ttp
    out = []
    text = case["template"]
    if case["envs"]:
        text = environment(case, base, i)

    def go():
        p = T(vars=dict(case["vars"]), log_level="CRITICAL")
        p.add_template(text)
        for d in case["data"]:
            p.add_input(d)
        p.parse(one=True)
        return p.result()
    for _ in range(2 if case["twice"] else 1):
        out.append(scenario.outcome(go))
    return out


def fill(case, d):
    """a folder with a complete cache file made by the real code"""
    os.environ["TTPCACHEFOLDER"] = d
    scenario.import_ttp().lazy_import_functions()


def old_version(d, scratch, version="0.0.1"):
    """cache file made by another version of the package, which lacks some functions"""
    src = os.path.dirname(scenario.import_ttp().__file__)
    pk = os.path.join(scratch, "old", "ttp")
    shutil.copytree(src, pk, ignore=shutil.ignore_patterns("__pycache__", "*.pickle*"))
    done = False
    for root, dirs, files in os.walk(pk):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                s = open(p, encoding="utf-8").read()
                t = re.sub(r'(?m)^(__version__\s*=\s*)["\'][^"\']*["\']', r'\1"{}"'.format(version), s)
                if t != s:
                    done = True
                    open(p, "w", encoding="utf-8").write(t)
    if not done:
        return False
    for m in ("match", "group", "output"):
        p = os.path.join(pk, m)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith(".py") and not f.startswith("_"):
                with open(os.path.join(p, f), "a") as fo:
                    fo.write("\n\ndef zz_only_here(data):\n    return data\n")
                if f in ("string.py", "macro.py", "set.py"):
                    os.unlink(os.path.join(p, f))
    for m in [m for m in sys.modules if m == "ttp" or m.startswith("ttp.")]:
        del sys.modules[m]
    sys.path.insert(0, os.path.join(scratch, "old"))
    os.environ["TTPCACHEFOLDER"] = d
    old = importlib.import_module("ttp.ttp")
    if not old.__file__.startswith(scratch):
        return False
    old.lazy_import_functions()
    return True


ALIENS = ["renamed", "moved", ["other"], None, {}, 7, "text", {"python_major_version": sys.version_info.major}, {"python_major_version": None}, (), {"match": 1}]


def alien(case, d, kind):
    """a complete file made by code whose classes or table are not those of this package"""
    import pickle
    mod = scenario.import_ttp()
    own = [c for c in list(vars(mod).values()) if isinstance(c, type) and c.__module__ == mod.__name__]
    if kind == "moved":
        m = sys.modules["ttp.lazy_old"] = type(sys)("ttp.lazy_old")
        for c in own:
            setattr(m, c.__name__, c)
            c.__module__ = "ttp.lazy_old"
    elif kind == "renamed":
        for c in own:
            c.__name__ = c.__qualname__ = c.__name__ + "Old"
            setattr(mod, c.__name__, c)
    else:
        def other(obj):
            return kind if isinstance(obj, dict) and "python_major_version" in obj else obj
        dumps, dump = pickle.dumps, pickle.dump
        pickle.dumps = lambda obj, *a, **kw: dumps(other(obj), *a, **kw)
        pickle.dump = lambda obj, *a, **kw: dump(other(obj), *a, **kw)
    fill(case, d)


class Evil:
    def __reduce__(self):
        return (sys.exit, (66,))


class NoClass:
    pass


def prepare(case, d, scratch):
    """initial content of folder d; False when it cannot be made"""
    r = random.Random(case["arg"])
    k = case["init"]
    f = os.path.join(d, CACHE)
    if k == "nofolder":
        return True
    if k == "folder_is_file":
        open(d, "w").close()
        return True
    os.makedirs(d)
    if k == "absent":
        return True
    if k in ("complete", "truncated", "zero_tail", "flip", "appended", "swapped", "leftovers"):
        fill(case, d)
        if not os.path.isfile(f):
            return False
        b = open(f, "rb").read()
        if k == "truncated":
            b = b[:r.choice([r.randrange(len(b)), len(b) - 1, len(b) - r.randrange(1, 60), r.randrange(1, 200)])]
        elif k == "zero_tail":
            n = r.choice([r.randrange(len(b)), len(b) - 1, len(b) // 4096 * 4096, 0, 4096])
            b = b[:n] + b"\0" * (len(b) - n)
        elif k == "flip":
            b = bytearray(b)
            for _ in range(r.choice([1, 1, 2, 8])):
                i = r.randrange(len(b))
                b[i] ^= 1 << r.randrange(8)
            b = bytes(b)
        elif k == "appended":
            b = b + r.choice([b, b"x", b"\0" * 100])
        elif k == "swapped":
            i, j = sorted(r.randrange(len(b)) for _ in range(2))
            b = b[:i] + b[j:] if r.random() < 0.5 else b[j:] + b[:j]
        elif k == "leftovers":
            for s in ("{}.1234-99".format(CACHE), CACHE + ".tmp", "tmpabc", CACHE + ".1"):
                open(os.path.join(d, s), "wb").write(b[:r.randrange(len(b))])
            if r.random() < 0.5:
                os.unlink(f)
                return True
        open(f, "wb").write(b)
        return True
    if k == "alien":
        alien(case, d, r.choice(ALIENS))
        return os.path.isfile(f)
    import pickle
    data = None
    if k == "zeros":
        data = b"\0" * r.choice([1, 512, 4096, 30000])
    elif k == "empty":
        data = b""
    elif k == "garbage":
        data = bytes(r.randrange(256) for _ in range(r.choice([1, 10, 300, 5000])))
    elif k == "text":
        data = r.choice([b"\n", b"hello\n", b"\n\n\n", b"80 04 95\n" * 9, b"{'version': 1}", b"." * 64 + b"\n."])
    elif k == "pickle_other":
        data = pickle.dumps(r.choice([{}, [], None, 1, {"match": {}}, {"python_major_version": 3}, {"python_major_version": 3, "__version__": None},
                                      {"python_major_version": sys.version_info.major, "__version__": getattr(scenario.import_ttp(), "__version__", "x")}, ["python_major_version"]]))
    elif k == "pickle_evil":
        data = r.choice([pickle.dumps(Evil()), b"cnosuchmodule\nnosuch\n.", b"cttp.ttp\nNoSuchClass\n(tR.", b"(S'x'\n" * 3000, b"\x80\x05\x95\xff\xff\xff\xff\xff\xff\xff\x7f"])
    elif k in ("plain_pickle", "plain_torn"):
        # content that earlier versions of the package wrote: no checksum
        m = scenario.import_ttp()
        t = {"macro": {}, "python_major_version": sys.version_info.major, "global_vars": {}, "template_obj": {}, "vars": {},
             "match": {}, "group": {}, "__version__": "0.9.5"}
        data = pickle.dumps(t)
        if k == "plain_torn":
            data = data[:r.randrange(len(data))]
    elif k in ("old_version", "old_truncated"):
        if not old_version(d, scratch):
            return False
        if not os.path.isfile(f):
            return False
        if k == "old_truncated":
            b = open(f, "rb").read()
            open(f, "wb").write(b[:r.randrange(len(b))])
        return True
    elif k == "directory":
        os.makedirs(os.path.join(f, "sub"))
        return True
    elif k == "dangling":
        os.symlink(r.choice(["nowhere", CACHE, "/proc/nope/x"]), f)
        return True
    with open(f, "wb") as fo:
        fo.write(data)
    return True


def reference(case, d, i=0):
    os.environ["TTPCACHEFOLDER"] = d
    return life(case, os.path.dirname(d), i)


def storm(case, d):
    ch = core.Choices(case["sched_seed"], case["sched"])
    os.environ["TTPCACHEFOLDER"] = d
    pkgdir = os.path.dirname(scenario.import_ttp().__file__)
    faults = [dict(f) for f in case["faults"]]
    total = [0]

    def fault(p, op, rel, size):
        total[0] += 1
        if case["power"] and total[0] == case["power"]:
            return ("power",)
        for f in faults:
            if f["p"] != p.n:
                continue
            if p.ops + 1 == f["k"] or f.get("hit") == op and f["sticky"] and f["do"][0] == "err":
                f["hit"] = op
                do = tuple(f["do"])
                if do[0] == "tear" and op != "write":
                    do = ("crash",)
                if do[0] == "torn" and op != "write":
                    do = ("err", do[2])
                if do[0] == "short" and op not in ("write", "read"):
                    continue
                return do
        return None
    kn = [CACHE, "."]
    if os.path.isdir(d):
        kn += os.listdir(d)
    ctl = starters.Controller(d, ch, fault, stay=case["stay"], known=kn)
    pk = [dict(f) for f in case["pkg"]]

    def setup(n, sim):
        rpc = sim.hook
        sim.bufsize = case["bufsize"]
        mine = [f for f in pk if f["p"] == n]
        sim.pkghits = 0
        if mine:
            sim.roots.append(os.path.realpath(pkgdir))
        seen = {}

        def hook(op, path, size):
            if not path.startswith(sim.root):
                seen[op] = seen.get(op, 0) + 1
                for f in mine:
                    if f["op"] == op and seen[op] == f["k"]:
                        rpc("pkg-" + f["do"][1], sim.root, 0)
                        return tuple(f["do"])
                return None
            return rpc(op, path, size)
        sim.hook = hook

    res = {"violation": None}
    procs = [starters.Proc(i, life, (case, os.path.dirname(d), i), [d], setup) for i in range(case["n"])]
    try:
        ctl.run(procs)
    except core.Violation as v:
        res["violation"] = [v.kind, v.detail]
    fired = dict(ctl.fired)
    bad = set()
    for e in ctl.log:
        if e[1].startswith("pkg-"):
            bad.add(e[0])
            k = "{}@package".format(e[1][4:])
            fired[k] = fired.get(k, 0) + 1
    res.update({"outs": [[p.state, p.value, p.n in bad] for p in procs], "choices": ch.taken, "log": ctl.loghash(), "fired": fired,
                "steps": ctl.ops, "switches": ctl.switches, "tail": [list(map(str, e)) for e in ctl.log[-40:]]})
    return res


def run(case, env):
    base = env.scratch("run")
    d = os.path.join(base, "cache")
    refs = {}
    for i, e in enumerate(case["envs"] or [0] * (case["n"] + 2)):
        if e not in refs:
            ref = core.isolated(reference, case, os.path.join(base, "none"), i, timeout=env.timeout)
            if ref[0] != "ok":
                return env.harness("reference: {}".format(ref))
            refs[e] = ref[1]
    refs = [refs[e] for e in case["envs"] or [0] * (case["n"] + 2)]
    p = core.isolated(prepare, case, d, base, timeout=env.timeout)
    if p[0] != "ok":
        return env.harness("initial content: {}".format(p))
    if not p[1]:
        return env.skip("initial content {} cannot be made".format(case["init"]))
    out = core.isolated(storm, case, d, timeout=env.timeout)
    if out[0] != "ok":
        return env.harness("storm: {}".format(out))
    res = out[1]
    res["extra"] = {"processes": case["n"], "process_switches": res["switches"], "init_" + case["init"]: 1}
    res["log"] = core.digest(res["log"], case["init"], str(case["arg"]) if case["init"] not in ("absent", "complete") else "")
    env.add(res, nontrivial=bool(res["fired"]) or case["n"] > 1 and res["switches"] > case["n"] or case["init"] not in ("absent", "complete"))
    if res["violation"]:
        return env.violation(*res["violation"], res=res)
    for i, (state, value, pkgfault) in enumerate(res["outs"]):
        if state == "dead":
            continue
        bad = judge(refs[i], value, pkgfault)
        if bad:
            return env.violation("starter-" + bad[0], "process {} (initial content {}): {}".format(i, case["init"], bad[1]), res=res)
    for i in range(2):
        o = core.isolated(reference, case, d, case["n"] + i, timeout=env.timeout)
        if o[0] == "timeout":
            return env.violation("later-hang", "a later start does not end", res=res)
        if o[0] == "died":
            return env.violation("later-died", "a later start died: {}".format(o), res=res)
        bad = judge(refs[case["n"] + i], o, False)
        if bad:
            return env.violation("later-" + bad[0], "start {} after the faults (initial content {}): {}".format(i, case["init"], bad[1]), res=res)
    return env.ok(res)


def judge(ref, value, pkgfault):
    if value is None or value[0] != "ok":
        return "failed", core.short(str(value), 600)
    for a, b in zip(ref, value[1]):
        if a[:2] == b[:2]:
            continue
        if pkgfault and b[0] == "raised":
            continue
        if a[0] == b[0] == "ok":
            return "different-results", core.first_diff(a[1], b[1])
        return "different-outcome", "expected {} got {}".format(core.short(str(a), 300), core.short(str(b), 500))
    return None


def shrink(case):
    for k in ("faults", "pkg"):
        for i in range(len(case[k])):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    if case["power"]:
        yield dict(case, power=0)
    if case["twice"]:
        yield dict(case, twice=False)
    if case["envs"]:
        yield dict(case, envs=None)
    if case["n"] > 1:
        yield dict(case, n=case["n"] - 1, envs=case["envs"] and case["envs"][:-1], faults=[f for f in case["faults"] if f["p"] < case["n"] - 1], pkg=[f for f in case["pkg"] if f["p"] < case["n"] - 1])
    if case["init"] != "absent":
        yield dict(case, init="absent")
    for i in range(len(case["data"])):
        if len(case["data"]) > 1:
            yield dict(case, data=case["data"][:i] + case["data"][i + 1:])


def setup():
    scenario.warm_libs()
    scenario.import_ttp()
    fs.install()
