"""writes MANIFEST.json from the property modules that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
 "C01": "Seeded search over workloads, CPU counts, queue capacities, hash seeds and complete schedules of simulated worker processes (real forks, real worker code, simulated queues). Oracle: the same scenario in one process. Sampled, not exhaustive; worker code between queue operations runs unpreempted; fork start method only.",
 "C02": "As C01 with worker exceptions, exits, kills at queue operations (also holding the queue lock), start failures, untransferable results and caller interrupts. A kill inside a half-written pipe message is below the queue seam and not simulated.",
 "C03": "Several real starter processes over simulated files: every order of file operations is a recorded choice, crashes and I/O errors at any operation, un-synced data lost or torn, arbitrary initial cache contents. Oracle: result without any cache file. Sampled.",
 "C04": "Seeded interleavings of API calls on 2-4 parsers in one process against each parser's history alone in its own process. Sampled.",
 "C05": "Real threads under a baton scheduler that decides at traced lines of ttp and template macro code who runs next; each thread's outcome compared with the same history alone. Switch points are line boundaries, not bytecodes; C code is atomic (as under the GIL).",
 "C06": "An exception or interrupt injected at a chosen traced line, function call or file operation of parse(); the reused object must equal a fresh one. Line granularity; sampled.",
 "C07": "Seeded API histories with file changes between calls against an executable life-cycle model built over single-datum reference runs. Sampled.",
 "C08": "File-system faults (vanish, EIO, EACCES, undecodable bytes, short reads, listing order) at any operation while loading and parsing. Oracle: complete results of the content or a raised error. Sampled.",
 "C09": "Write-side faults (mkdir race, ENOSPC, EIO, EACCES, short writes, failing close), several processes or threads writing to one new directory, repeated workbook updates. Oracle: independent model of the expected file content. Sampled.",
 "C10": "Simulated resolver, sockets and clock under the real logging.handlers.SysLogHandler. Oracle: the list of expected datagrams per server. Sampled.",
 "C11": "Simulated DNS servers, network faults and clock under the real dnspython resolver. Oracle: answer table of the simulated servers and a bound in simulated time. Sampled.",
 "C12": "Simulated clock that advances, stands still or jumps at each reading. Oracle: the value must render one instant inside the window of readings. Sampled.",
 "C13": "The same case in processes with different hash seeds, directory orders, cache states and prior history; byte equality. Sampled.",
 "C14": "Seeded sets, orders, repetitions and failures of datums over several parses of one object; each result must equal the single-datum run of a new parser (prefix runs for templates that carry state). Sampled.",
 "C15": "The command line tool run in-process under the simulated multiprocessing and file system; output and exit status compared with the library. Sampled.",
 "C23": "Templates split at random into files over a faulty file system (short reads, listing order, vanish, EIO, EACCES, EMFILE, undecodable bytes), files rewritten with equal size and time stamp between parsers. Oracle: the same template in one piece, expanded by an independent model. Stat errors on the main template path are excluded (a path that is not a file is template text). Sampled.",
}
TECH = {
 "C01": "deterministic simulation of worker processes and queues, seeded schedules",
 "C02": "deterministic simulation of worker processes with fault injection",
 "C03": "deterministic simulation of a crashing, faulty file system and concurrent starters",
 "C04": "seeded simulation of interleaved API histories against isolated runs",
 "C05": "deterministic simulation of threads, seeded line-level schedules",
 "C06": "deterministic fault injection at simulated interrupt points",
 "C07": "seeded simulation of API histories against an executable model",
 "C08": "deterministic simulation of a faulty file system",
 "C09": "deterministic simulation of a faulty file system with concurrent writers",
 "C10": "deterministic simulation of network, resolver and clock with fault injection",
 "C11": "deterministic simulation of DNS network and clock with fault injection",
 "C12": "deterministic simulation of the clock with jumps",
 "C13": "deterministic simulation varying hash seed, listing order, cache state and history",
 "C14": "seeded simulation of datum histories against isolated runs",
 "C15": "deterministic simulation of the command line tool with process and file faults",
 "C23": "deterministic simulation of a faulty file system while templates are loaded",
}
NA = {
 "C16": "Regular expression generation and matching is a pure function of template and text: no schedule, clock, I/O, fault or crash can change it, so simulation would only be input fuzzing.",
 "C17": "Result structuring is a pure function of the matches: nothing for a scheduler or fault injector to vary (state carried between datums is covered by C06, C07 and C14).",
 "C18": "The value each built-in function computes is a pure function of its arguments; the functions that do depend on network, clock or shared state are covered by C05, C11, C12.",
 "C19": "Formatters are pure functions of the results; writing their output is covered by C09.",
 "C20": "Loaders are pure functions of text; reading the files is covered by C08.",
 "C22": "Whether template text reaches builtins is a static property of evaluation with no dependence on schedule, time, I/O or faults.",
}
have = [p["id"] for p in props if os.path.exists(os.path.join(V, "dst/props", p["id"].lower() + ".py"))]
checks = [{"property": i, "quick_cmd": "./check {} --tier quick".format(i), "thorough_cmd": "./check {} --tier thorough".format(i),
           "evidence_file": "evidence/{}.json".format(i), "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]} for i in have]
na = [{"property": p["id"], "reason": NA.get(p["id"], "Check not built yet.")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m dst.selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an existing module attribute (multiprocessing, open, os, time, datetime, socket, logging, dns) replaced in the simulating process. Replay a violation with ./check <ID> --replay <file>."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(have)
