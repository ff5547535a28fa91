"""Runs a property's seeded search, shrinks and replays violations, writes evidence.

    python -m dst.driver C01 [--tier quick|thorough] [--seed N]
    python -m dst.driver C01 --replay FILE
    (internal) python -m dst.driver C01 --shard I --out FILE ...
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARDS = 8


class Env:
    """what a property's run() sees"""

    def __init__(self, scratch, timeout=90):
        self._scratch = scratch
        self.timeout = timeout
        self.n = 0
        self.info = {}

    def scratch(self, name):
        """a fresh directory whose path has the same length on every run"""
        d = os.path.join(self._scratch, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def add(self, res, nontrivial=True):
        self.info = {"choices": res.get("choices"), "log": res.get("log"), "fired": res.get("fired", {}),
                     "simtime": res.get("now", 0.0), "nontrivial": bool(nontrivial), "steps": res.get("steps", 0),
                     "extra": res.get("extra", {})}

    def ok(self, res=None):
        return dict(self.info, status="ok")

    def skip(self, why):
        return dict(self.info, status="skip", why=why)

    def harness(self, why):
        return dict(self.info, status="harness", why=why)

    def violation(self, kind, detail="", res=None):
        d = dict(self.info, status="violation", kind=kind, detail=core.short(detail, 1500))
        if res is not None and res.get("tail"):
            d["trace_tail"] = res["tail"]
        return d

    def finding(self, fid, detail=""):
        return dict(self.info, status="finding", kind=fid, detail=core.short(detail, 600))


def load(pid):
    return importlib.import_module("dst.props." + pid.lower())


def prepare(mod):
    """seams in place and a complete function cache, so that the first run is like any other"""
    if hasattr(mod, "setup"):
        mod.setup()
    from . import scenario
    if not os.listdir(os.environ["TTPCACHEFOLDER"]):
        core.isolated(lambda: scenario.import_ttp().ttp(log_level="CRITICAL") and None)


def run_case(mod, case, env):
    env.info = {}
    try:
        return mod.run(case, env)
    except core.HarnessError:
        return dict(env.info, status="harness", why=traceback.format_exc())
    except Exception:
        return dict(env.info, status="harness", why=traceback.format_exc())


def same(a, b):
    return b["status"] == "violation" and b["kind"] == a["kind"]


def minimise(mod, case, res, env, budget):
    """greedy: keep any smaller case that shows the same kind of violation"""
    end = core.real_monotonic() + budget
    best, bres = case, res
    if "sched" in best and bres.get("choices") is not None and best["sched"] is None:
        c = dict(best, sched=bres["choices"])
        r = run_case(mod, c, env)
        if same(bres, r):
            best, bres = c, r
    tries = 0
    progress = True
    while progress and core.real_monotonic() < end:
        progress = False
        cands = list(mod.shrink(best)) if hasattr(mod, "shrink") else []
        for c in cands:
            if core.real_monotonic() > end:
                break
            tries += 1
            # the old schedule first, then the natural one
            vs = [c]
            if c.get("sched") is not None:
                vs.append(dict(c, sched=[]))
            for v in vs:
                r = run_case(mod, v, env)
                if same(bres, r):
                    best, bres, progress = v, r, True
                    break
            if progress:
                break
        if not progress and best.get("sched"):
            s = best["sched"]
            n = len(s)
            trial = []
            if any(s):
                trial.append([])
            k = n
            while k > 1:
                k //= 2
                trial.append(s[:n - k])
            nz = [i for i, v in enumerate(s) if v]
            step = max(1, len(nz) // 12)
            for b in range(0, len(nz), step):
                z = list(s)
                for i in nz[b:b + step]:
                    z[i] = 0
                trial.append(z)
            for t in trial:
                if core.real_monotonic() > end:
                    break
                while t and t[-1] == 0:
                    t = t[:-1]
                if t == s:
                    continue
                tries += 1
                c = dict(best, sched=t)
                r = run_case(mod, c, env)
                if same(bres, r):
                    best, bres, progress = c, r, True
                    break
    return best, bres, tries


def shard_main(a):
    mod = load(a.prop)
    prepare(mod)
    env = Env(a.scratch)
    out = open(a.out, "w")
    t0 = core.real_monotonic()

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    n = bad = 0
    for i in range(a.shard, a.n, NSHARDS):
        if core.real_monotonic() - t0 > a.cap:
            emit({"note": "time cap reached"})
            break
        seed = (a.seed * 1000003 + i) & 0x7FFFFFFF
        case = mod.gen(seed, a.tier)
        case["hashseed"] = os.environ["PYTHONHASHSEED"]
        res = run_case(mod, case, env)
        if res["status"] == "violation":
            again = run_case(mod, case, env)
            if not same(res, again):
                third = run_case(mod, case, env)
                if not same(res, third):
                    res = dict(again, status="harness", why="not reproducible: {} / {}".format(res, again))
        d = {"i": i, "seed": seed, "status": res["status"], "log": res.get("log"), "fired": res.get("fired", {}),
             "simtime": res.get("simtime", 0.0), "nontrivial": res.get("nontrivial", False), "steps": res.get("steps", 0),
             "extra": res.get("extra", {})}
        if i % 97 == 0 or i < 2:
            d["sample"] = case
        if res["status"] == "finding":
            d["kind"], d["detail"] = res["kind"], res["detail"]
        if res["status"] in ("harness", "skip"):
            d["why"] = core.short(res.get("why", ""), 1500)
        if res["status"] == "violation":
            best, bres, tries = minimise(mod, case, res, env, a.shrink)
            d["kind"], d["detail"] = bres["kind"], bres["detail"]
            d["replay"] = {"property": a.prop, "seed": seed, "kind": bres["kind"], "detail": bres["detail"], "log": bres.get("log"),
                           "shrink_tries": tries, "trace_tail": bres.get("trace_tail"), "case": best}
            d["unshrunk"] = {"property": a.prop, "seed": seed, "kind": res["kind"], "detail": res["detail"], "log": res.get("log"),
                             "shrink_tries": 0, "trace_tail": res.get("trace_tail"), "case": case}
            emit(d)
            bad += 1
            if bad >= 1:
                break
            continue
        emit(d)
    emit({"done": True, "wall": core.real_monotonic() - t0})


def child_env(hashseed, scratch):
    e = dict(os.environ)
    e.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
              "TTPCACHEFOLDER": os.path.join(scratch, "cache"), "PYTHONPATH": VERIF + os.pathsep + core.REPO})
    e.pop("TTP_TEMPLATES_DIR", None)
    os.makedirs(e["TTPCACHEFOLDER"], exist_ok=True)
    return e


def hashseed_for(seed, shard):
    return str((seed * 7919 + shard * 104729) % 4294967295)


def replay_main(pid, path, quiet=False):
    """re-run a replay file in a fresh process; exit 1 when it reproduces"""
    with open(path) as f:
        rep = json.load(f)
    scratch = make_scratch()
    try:
        e = child_env(rep["case"].get("hashseed", "0"), scratch)
        p = subprocess.run([sys.executable, "-m", "dst.driver", pid, "--replay-here", path, "--scratch", os.path.join(scratch, "s")],
                           env=e, cwd=VERIF, stdout=subprocess.PIPE, text=True)
        if not quiet:
            sys.stdout.write(p.stdout)
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_here(a):
    with open(a.replay_here) as f:
        rep = json.load(f)
    mod = load(a.prop)
    prepare(mod)
    os.makedirs(a.scratch, exist_ok=True)
    env = Env(a.scratch)
    r = run_case(mod, rep["case"], env)
    print("replay: {} {} {}".format(r["status"], r.get("kind", ""), core.short(r.get("detail", r.get("why", "")), 1500)))
    if r.get("trace_tail"):
        for e in r["trace_tail"]:
            print("   ", " ".join(e))
    if r["status"] == "violation":
        print("event log hash: {} (recorded {})".format(r.get("log"), rep.get("log")))
        return 1 if r["kind"] == rep["kind"] and r.get("log") == rep.get("log") else 3
    return 0 if r["status"] in ("ok", "skip", "finding") else 2


def make_scratch():
    import tempfile
    # fixed-length path: it may appear in results and logs
    return tempfile.mkdtemp(prefix="dst-")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--shrink", type=float, default=45)
    ap.add_argument("--replay")
    ap.add_argument("--replay-here")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay_here:
        sys.exit(replay_here(a))
    if a.shard is not None:
        shard_main(a)
        return
    if a.replay:
        sys.exit(replay_main(a.prop, a.replay))
    sys.exit(search(a))


def search(a):
    mod = load(a.prop)
    t0 = core.real_monotonic()
    n = a.n or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    cap = a.cap or (330 if a.tier == "quick" else 3 * 3600)
    scratch = make_scratch()
    procs = []
    try:
        for s in range(NSHARDS):
            d = os.path.join(scratch, "shard{}".format(s))
            os.makedirs(os.path.join(d, "w"))
            cmd = [sys.executable, "-m", "dst.driver", a.prop, "--shard", str(s), "--n", str(n), "--seed", str(a.seed), "--tier", a.tier,
                   "--out", os.path.join(d, "out"), "--scratch", os.path.join(d, "w"), "--cap", str(cap), "--shrink", str(a.shrink)]
            err = open(os.path.join(d, "err"), "w")
            procs.append((s, d, subprocess.Popen(cmd, env=child_env(hashseed_for(a.seed, s), d), cwd=VERIF, stderr=err,
                                                 stdout=err, stdin=subprocess.DEVNULL)))
        for s, d, p in procs:
            p.wait()
        rows, notes, errors = [], [], []
        for s, d, p in procs:
            done = False
            try:
                for line in open(os.path.join(d, "out")):
                    r = json.loads(line)
                    if r.get("done"):
                        done = True
                    elif "note" in r:
                        notes.append("shard {}: {}".format(s, r["note"]))
                    else:
                        r["shard"] = s
                        rows.append(r)
            except (OSError, ValueError) as e:
                errors.append("shard {}: {}".format(s, e))
            if not done:
                errors.append("shard {} ended early ({}): {}".format(s, p.returncode, core.short(open(os.path.join(d, "err")).read(), 1500)))
        return report(a, mod, n, rows, notes, errors, core.real_monotonic() - t0)
    finally:
        for s, d, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def report(a, mod, n, rows, notes, errors, wall):
    viol = [r for r in rows if r["status"] == "violation"]
    harness = [r for r in rows if r["status"] == "harness"]
    fired, extra = {}, {}
    for r in rows:
        for k, v in (r.get("fired") or {}).items():
            fired[k] = fired.get(k, 0) + v
        for k, v in (r.get("extra") or {}).items():
            extra[k] = extra.get(k, 0) + v
    done = [r for r in rows if r["status"] in ("ok", "violation", "finding")]
    distinct = {r["log"] for r in done if r.get("nontrivial") and r.get("log")}
    simt = sum(r.get("simtime") or 0 for r in rows)
    code = 0
    lines = []
    vcount = 0
    findings = {}
    for r in rows:
        if r["status"] == "finding":
            findings.setdefault(r["kind"], r)
    for k, r in sorted(findings.items()):
        lines.append("KNOWN-FINDING: property={} {} {}".format(a.prop, k, core.short(r["detail"], 200).replace("\n", " ")))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    for r in sorted(viol, key=lambda r: len(json.dumps(r["replay"]))):
        if r["kind"] in seen:
            continue
        seen.add(r["kind"])
        path = os.path.join(VERIF, "replays", "{}-{}-{}.json".format(a.prop, r["kind"], r["seed"]))
        core.jdump(r["replay"], path)
        codes = [replay_main(a.prop, path, quiet=True)]
        if codes[0] != 1:
            codes += [replay_main(a.prop, path, quiet=True) for _ in range(2)]
        if not any(c in (1, 3) for c in codes):
            # the smaller case does not show it in a fresh process, maybe the case that was found does
            core.jdump(r["unshrunk"], path)
            codes += [replay_main(a.prop, path, quiet=True) for _ in range(2)]
            r = dict(r, kind=r["unshrunk"]["kind"], detail=r["unshrunk"]["detail"])
        if not any(c in (1, 3) for c in codes):
            # without a replay it is no violation
            notes.append("seed {} gave {} in the search but not in a fresh process {}: {}".format(r["seed"], r["kind"], codes, r["detail"]))
            notes.append("trace {} case {}".format(core.short(str(r["unshrunk"]["trace_tail"]), 3000), core.short(json.dumps(r["replay"]["case"]), 6000)))
            os.unlink(path)
            continue
        vcount += 1
        code = 1
        lines.append("violation: {} {}".format(r["kind"], r["detail"]))
        lines.append("VIOLATION property={} replay={}".format(a.prop, path))
    if harness:
        errors.append("{} runs ended with a harness error, first: {}".format(len(harness), harness[0].get("why")))
    if errors and code == 0:
        code = 2
    if not done and code == 0:
        errors.append("no run was evaluated")
        code = 2
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": [r["sample"] for r in rows if "sample" in r][:3] or [{"note": "none"}],
            "runs_started": len(rows),
            "runs_skipped": len([r for r in rows if r["status"] == "skip"]),
            "runs_planned": n,
            "seeds_per_hour": int(len(rows) / max(wall, 0.01) * 3600),
            "simulated_steps": sum(r.get("steps") or 0 for r in rows),
            "simulated_seconds": round(simt, 3),
            "faults_injected": dict(sorted(fired.items())),
            "measured": dict(sorted(extra.items())),
            "distinct_measure": "hash of the complete event log of a run (who ran, every operation, every fault)",
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": vcount,
    }
    if notes:
        ev["coverage"]["notes"] = notes
    if errors:
        ev["coverage"]["errors"] = errors[:5]
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        core.jdump(ev, os.path.join(VERIF, "evidence", a.prop + ".json"))
    print("{} {}: {} runs ({} evaluated, {} skipped), {} distinct non-trivial, {:.1f}s, faults {}".format(
        a.prop, a.tier, len(rows), len(done), len([r for r in rows if r["status"] == "skip"]), len(distinct), wall, fired))
    if extra:
        print("  measured", dict(sorted(extra.items())))
    for l in notes:
        print("note:", l)
    for l in errors:
        print("ERROR:", l)
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    main()
