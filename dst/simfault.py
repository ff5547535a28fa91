"""Failures that the simulator arms in one process only."""
import builtins
import errno
import os

ARMED = None
FIRED = []
KINDS = {
    "OSError": lambda: OSError(errno.EMFILE, "Too many open files"),
    "MemoryError": lambda: MemoryError("injected"),
    "ImportError": lambda: ImportError("injected"),
    "ModuleNotFoundError": lambda: ModuleNotFoundError("No module named 'injected'"),
    "PermissionError": lambda: PermissionError(errno.EACCES, "Permission denied"),
    "RecursionError": lambda: RecursionError("injected"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "injected"),
    "ValueError": lambda: ValueError("injected"),
    "SystemExit": lambda: SystemExit(1),
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
    "RuntimeError": lambda: RuntimeError("injected"),
}


def load():
    """macro texts of the workloads call this while they are loaded"""
    if ARMED is not None:
        raise KINDS[ARMED]()


def arm(fault):
    """in the chosen worker, before ttp code runs there"""
    global ARMED
    if fault["kind"] == "load_fails":
        ARMED = fault["exc"]
    elif fault["kind"] == "open_fails":
        left = [fault["at"]]
        real = builtins.open

        def failing(file, *a, **kw):
            if not isinstance(file, int):
                left[0] -= 1
                if left[0] == 0 or (left[0] < 0 and fault.get("stays")):
                    raise OSError(errno.EMFILE, "Too many open files", str(file))
            return real(file, *a, **kw)
        builtins.open = failing
        listdir = os.listdir

        def failing_listdir(*a):
            left[0] -= 1
            if left[0] == 0 or (left[0] < 0 and fault.get("stays")):
                raise OSError(errno.EMFILE, "Too many open files", str(a[:1]))
            return listdir(*a)
        os.listdir = failing_listdir


LOAD_MACRO = """
<macro>
import sys
sys.modules["dst.simfault"].load()

def loadmac(data):
    return data + "-loaded"
</macro>
<group name="lmac*">
lmac {{ w | macro("loadmac") }}
</group>
"""
