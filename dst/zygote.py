"""Interpreters with chosen hash seeds that run one job per forked child.

    python -m dst.zygote      (jobs on descriptor 3, answers on descriptor 4)
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys

from . import core


class Zygote:
    def __init__(self, hashseed, scratch):
        jr, jw = os.pipe()
        ar, aw = os.pipe()
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-c", "from dst import zygote; zygote.serve({}, {})".format(jr, aw)], env=env,
                                  pass_fds=(jr, aw), stdin=subprocess.DEVNULL, cwd=scratch)
        os.close(jr)
        os.close(aw)
        self.w = os.fdopen(jw, "wb")
        self.r = os.fdopen(ar, "rb")

    def run(self, module, func, args, timeout):
        b = pickle.dumps((module, func, args, timeout))
        self.w.write(struct.pack("<I", len(b)) + b)
        self.w.flush()
        h = self.r.read(4)
        if len(h) < 4:
            raise core.HarnessError("zygote ended")
        return pickle.loads(self.r.read(struct.unpack("<I", h)[0]))


def serve(jr, aw):
    from . import scenario
    scenario.warm_libs()
    scenario.import_ttp()
    r, w = os.fdopen(jr, "rb"), os.fdopen(aw, "wb")
    while True:
        h = r.read(4)
        if len(h) < 4:
            break
        module, func, args, timeout = pickle.loads(r.read(struct.unpack("<I", h)[0]))
        mod = importlib.import_module(module)
        if hasattr(mod, "setup"):
            mod.setup()
        b = pickle.dumps(core.isolated(getattr(mod, func), *args, timeout=timeout))
        w.write(struct.pack("<I", len(b)) + b)
        w.flush()


POOL = {}


def get(hashseed, scratch="/"):
    k = (os.getpid(), str(hashseed))
    if k not in POOL:
        POOL[k] = Zygote(hashseed, scratch)
    return POOL[k]
