"""setup_cmd: imports and folders.  With arguments: determinism of the simulator itself.

    python -m dst.selftest C05 200      every seed three times, histories in different orders"""
import os
import sys

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def determinism(pid, n, start=1000003):
    """the same case must give the same event log, verdict and faults, also after other cases ran in the process"""
    import random
    import shutil
    from . import driver
    mod = driver.load(pid)
    scratch = driver.make_scratch()
    bad = 0
    try:
        os.environ.update({k: v for k, v in driver.child_env(os.environ.get("PYTHONHASHSEED", "0"), scratch).items() if k in ("TTPCACHEFOLDER",)})
        driver.prepare(mod)
        env = driver.Env(os.path.join(scratch, "w"))
        os.makedirs(os.path.join(scratch, "w"))
        seen = {}
        todo = [s for s in range(start, start + n) for _ in range(3)]
        random.Random(n).shuffle(todo)
        for s in todo:
            case = mod.gen(s, "quick")
            case["hashseed"] = os.environ.get("PYTHONHASHSEED", "0")
            r = driver.run_case(mod, case, env)
            k = (r["status"], r.get("kind"), r.get("log"), repr(sorted((r.get("fired") or {}).items())))
            if seen.setdefault(s, k) != k:
                bad += 1
                print("seed {} differs: {} / {}".format(s, seen[s], k))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("{}: {} seeds, {} runs, {} differences".format(pid, n, len(todo), bad))
    return bad


def main():
    if len(sys.argv) > 1:
        if os.environ.get("PYTHONHASHSEED") is None:
            os.environ["PYTHONHASHSEED"] = "1"
            os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
            os.environ.setdefault("TZ", "UTC")
            os.execv(sys.executable, [sys.executable, "-m", "dst.selftest"] + sys.argv[1:])
        return 1 if determinism(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 50) else 0
    from . import scenario
    mod = scenario.import_ttp()
    print("ttp", mod.__version__, "from", mod.__file__)
    scenario.warm_libs()
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replays", exist_ok=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
