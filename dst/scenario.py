"""Runs a workload given as plain data against the real ttp."""
import importlib
import os
import pickle
import queue
import sys
import warnings

from . import simfault  # noqa: F401 (macro texts of the workloads use it)
from .core import REPO, canon

warnings.filterwarnings("ignore")


def import_ttp():
    """ttp of the repository's working tree; plugin modules are not loaded"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mod = importlib.import_module("ttp.ttp")
    here = os.path.realpath(mod.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("ttp imported from {}".format(here))
    return mod


def import_pkg():
    import_ttp()
    return importlib.import_module("ttp")


def warm_libs():
    """third party modules that plugins import on first use (not ttp's own)"""
    import csv, json, pprint, ipaddress, decimal, difflib, traceback, configparser, socket, logging.handlers  # noqa
    import yaml
    # anchors only tell which lists are shared in memory, not what they hold
    for d in (yaml.Dumper, yaml.SafeDumper):
        d.ignore_aliases = lambda self, data: True
    import jinja2, tabulate, deepdiff, cerberus, openpyxl  # noqa
    import dns.resolver, dns.reversename, dns.query, dns.message  # noqa
    import ttp_templates  # noqa


# ------------------------------------------------------- user supplied functions
TICK = [0, None, None]   # calls so far, call to fail at, exception to raise


class Injected(Exception):
    """an error made by the simulator"""


def tick():
    """every user supplied function and macro passes here"""
    TICK[0] += 1
    if TICK[1] is not None and TICK[0] == TICK[1]:
        TICK[1] = None
        raise TICK[2]("injected at call {}".format(TICK[0]))


def cf_match(data, *args, **kwargs):
    tick()
    if data.startswith("x"):
        return data, False
    return "<" + data + ">", None


def cf_newfield(data, *args, **kwargs):
    tick()
    return data, {"new_field": {"cf_len": len(data)}}


def cf_group(data, *args, **kwargs):
    tick()
    data["cf_tag"] = "{}-{}".format(kwargs.get("tag", "t"), len(data))
    return data, None


def cf_input(data, *args, **kwargs):
    tick()
    if not isinstance(data, str):
        return "\n" + "\n".join(str(i) for i in data) + "\n\n", None
    return data.replace("cust", "cust"), None


def cf_output(data, *args, **kwargs):
    tick()
    return {"cf_out": data}


def cf_macro(data):
    tick()
    return data + "_m"


def cf_variable(data, name):
    tick()
    return "{} bytes".format(len(data))


def cf_returner(data, **kwargs):
    tick()
    return None


def cf_formatter(data, **kwargs):
    tick()
    return "F:" + canon(data)


def cf_match_alt(data, *args, **kwargs):
    tick()
    return "alt[" + data + "]", None


def cf_group_alt(data, *args, **kwargs):
    tick()
    data["alt"] = sorted(data)
    return data, None


def cf_macro_alt(data):
    tick()
    return "alt_" + data


def cf_output_alt(data, *args, **kwargs):
    tick()
    return ["alt", data]


def cf_variable_alt(data, name):
    tick()
    return "alt {}".format(len(data) % 7)


def cf_shadow(data, *args, **kwargs):
    tick()
    return "shadow:" + data, None


class Boom(Exception):
    pass


def cf_boom(data, *args, **kwargs):
    """fails the way its argument says when the match says so"""
    if "boom" not in data:
        return data, None
    how = kwargs.get("how", "raise")
    if how == "raise":
        raise Boom(data)
    if how == "exit":
        raise SystemExit(3)
    if how == "exit0":
        raise SystemExit(0)
    if how == "osexit":
        os._exit(7)
    if how == "osexit0":
        os._exit(0)
    if how == "memory":
        raise MemoryError(data)
    if how == "interrupt":
        raise KeyboardInterrupt(data)
    if how in ERRORS:
        raise ERRORS[how](*(["injected"] if how != "OSError" else [5, data]))
    if how == "unpicklable":
        return (lambda: data), None
    if how == "badload":
        return BadLoad(data), None
    return data, None


ERRORS = {e.__name__: e for e in (OSError, FileNotFoundError, KeyError, AttributeError, EOFError, TimeoutError, StopIteration, RecursionError,
                                  IndexError, TypeError, AssertionError, ImportError, GeneratorExit, BrokenPipeError, queue.Empty, queue.Full)}


class BadLoad:
    """pickles fine, fails to load"""

    def __init__(self, d):
        self.d = d

    def __reduce__(self):
        return (_explode, (self.d,))


def _explode(d):
    raise ValueError("cannot load " + d)


FUNCS = {f.__name__: f for f in (cf_match, cf_newfield, cf_group, cf_input, cf_output, cf_macro, cf_variable,
                                 cf_returner, cf_formatter, cf_boom, cf_match_alt, cf_group_alt, cf_macro_alt,
                                 cf_output_alt, cf_variable_alt, cf_shadow)}
ALT = {"cf_match": "cf_match_alt", "cf_group": "cf_group_alt", "cf_macro": "cf_macro_alt", "cf_output": "cf_output_alt",
       "cf_variable": "cf_variable_alt"}

CUSTOM = {
    "match": (["match", "cf_match"], """<group name="cum*">
cust {{ a | cf_match }} n {{ n | to_int }}
</group>"""),
    "newfield": (["match", "cf_newfield"], """<group name="cun*">
cust {{ a | cf_newfield | upper }} n {{ n | contains("1") }}
</group>"""),
    "group": (["group", "cf_group"], """<group name="cug*" cf_group="tag='z'">
cust {{ a }} n {{ n | to_int }}
</group>"""),
    "macro": (["macro", "cf_macro"], """<group name="cuo*">
cust {{ a | macro("cf_macro") | upper }} n {{ n }}
</group>"""),
    "variable": (["variable", "cf_variable"], """<vars>
cuv = "cf_variable"
hnn = "gethostname"
</vars>
<group name="cuv*">
cust {{ a }} n {{ n }}
{{ size | set("cuv") }}
{{ hh | set("hnn") }}
</group>"""),
    "output": (["output", "cf_output"], """<group name="cuo*">
cust {{ a }} n {{ n }}
</group>
<output cf_output=""/>
"""),
    "formatters": (["formatters", "cf_formatter"], """<group name="cuf*">
cust {{ a }} n {{ n }}
</group>
<output format="cf_formatter" returner="self"/>
"""),
    "returners": (["returners", "cf_returner"], """<group name="cur*">
cust {{ a }} n {{ n }}
</group>
<output format="json" returner="cf_returner"/>
"""),
    "input": (["input", "cf_input"], """<input name="sin" cf_input=""/>
<group name="cui*">
cust {{ a }} n {{ n }}
</group>"""),
}


def build(T, spec):
    """parser object with template, variables, lookups, functions and inputs"""
    for path, text in sorted(spec.get("files", {}).items()):
        d = os.path.dirname(path)
        if d:
            os.makedirs(d, exist_ok=True)
        with open(path, "wb") as f:
            f.write(text.encode("utf-8"))
    kw = {}
    if spec.get("base_path"):
        kw["base_path"] = spec["base_path"]
    p = T(vars=dict(spec.get("vars") or {}), dynamic_path_key_to_int=bool(spec.get("dpk")), log_level="CRITICAL", **kw)
    for scope, name, *impl in spec.get("functions", []):
        p.add_function(FUNCS[impl[0] if impl else name], scope=scope, name=name)
    for t in spec["templates"]:
        p.add_template(t["text"], **({"template_name": t["name"]} if t.get("name") else {}))
    for lk in spec.get("lookups", []):
        p.add_lookup(*lk)
    if spec.get("late_vars"):
        p.add_vars(dict(spec["late_vars"]))
    for i in spec["inputs"]:
        add_input(p, i)
    if spec.get("threshold") is not None:
        p.multiproc_threshold = spec["threshold"]
    return p


def add_input(p, i):
    kw = {"template_name": i.get("template", "_all_")}
    if i.get("name"):
        kw["input_name"] = i["name"]
    if i.get("groups"):
        kw["groups"] = list(i["groups"])
    data = i["data"]
    if i.get("pad"):
        data = data + ("filler line without meaning\n" * i["pad"])
    p.add_input(data, **kw)


def outcome(f, *a, **k):
    """("ok", canonical text) or ("raised", type name)"""
    try:
        return ("ok", canon(f(*a, **k)))
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        from .core import HarnessError, Violation
        if isinstance(e, (HarnessError, Violation)):
            raise
        return ("raised", type(e).__name__, str(e)[:300])


def run_plain(spec, scratch=None):
    """reference: the whole scenario in one process"""
    mod = import_ttp()
    if scratch:
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
    portable = True
    def go():
        nonlocal portable
        p = build(mod.ttp, spec)
        outs = []
        for ph in spec.get("phases", ["parse"]):
            phase(p, ph, one=True)
            outs.append(canon(p.result()))
            try:
                pickle.dumps(p.result())
            except Exception:
                portable = False
        return outs
    return outcome(go) + (portable,)


def phase(p, ph, **parse_args):
    if ph == "parse":
        p.parse(**parse_args)
    elif ph == "clear":
        p.clear_result()
    elif ph == "clear_input":
        p.clear_input()
    elif isinstance(ph, dict) and "input" in ph:
        add_input(p, ph["input"])
    elif isinstance(ph, dict) and "vars" in ph:
        p.add_vars(dict(ph["vars"]))
    else:
        raise ValueError(ph)
