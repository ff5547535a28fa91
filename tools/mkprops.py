"""Writes /verif/properties.jsonl (kept as code so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Parallel parsing gives exactly the single-process results, in input order",
 "Parsing with multiple worker processes produces exactly what parsing the same data with the same templates in one process produces: every input datum is parsed exactly once, with the same variables, lookups, macros, custom functions, input functions, group outputs and options in force, and its result appears at the datum's own position. This holds however the operating system schedules the workers, whatever the number of workers and datums, in whatever order results come back, and whichever hash seed a process runs with (features documented as unsupported in multi-process mode excepted).",
 ["schedules", "inputs", "configurations"],
 "every interleaving of parent and workers at queue and process operations, 1..N workers, 0..M datums, every mix of template features available in both modes, automatic and forced mode selection, every hash seed",
 "The tests call parse(multi=True) a handful of times on the real scheduler with one or two datums and mostly compare no order; the OS decides the interleaving and nearly always the same one, so ordering and hand-over bugs stay invisible.",
 ["ttp/ttp.py"],
 [("__parse_in_multiprocess: task fan-out and result collection", "ttp/ttp.py"), ("_worker: rebuilds functions/macros in the child and parses tasks", "ttp/ttp.py"), ("parse(): mode selection by size and count", "ttp/ttp.py")],
 [("task queue / results queue", "hand datums to workers and results back", "ttp/ttp.py __parse_in_multiprocess"), ("macro_text, _custom_functions_", "what is re-created in each worker", "ttp/ttp.py _worker")],
 ["ttp.result()", "ttp.parse(multi=True)", "CLI --multi"])

prop("C02", "A failing worker process makes parallel parsing fail cleanly, never hang or lose",
 "If, during multi-process parsing, a worker raises an exception or exits, is killed at any point, returns something that cannot be transferred, or cannot be started, parse() still terminates in bounded time and either raises an error or delivers the complete and correct results; it never returns normally with results missing, duplicated or altered. Afterwards no worker process is left running, and after its results and inputs are cleared the parser object parses correctly again.",
 ["fault_sequences", "schedules", "crash_points"],
 "every placement of worker exceptions, exits, kills, start failures and untransferable results over every interleaving of parent and workers",
 "No test makes a worker fail; doing so needs a fault at a chosen point of a chosen interleaving, and the bad outcome (a hang) would stop the test run.",
 ["ttp/ttp.py"],
 [("worker task loop and error hand-over", "ttp/ttp.py _worker.run"), ("parent collection loop and worker clean-up", "ttp/ttp.py __parse_in_multiprocess")],
 [("task queue / results queue", "outstanding work", "ttp/ttp.py"), ("workers", "child processes of the running parse", "ttp/ttp.py")],
 ["ttp.parse()", "ttp.result()", "live child processes"])

prop("C03", "The plugin cache file can never change or break what a parser does",
 "Creating a parser and parsing with it give the same outcome whatever the state of the function cache file on disk: absent, complete, torn or zero-filled by a crash at any write, corrupted, written by another version, holding something that is not a cache at all, unreadable or unwritable. Any number of processes may start at the same time with any interleaving of their file operations, and a crash or disk error while one of them writes the cache never makes that process or a later one fail or misbehave.",
 ["crash_points", "fault_sequences", "schedules"],
 "every crash point, short/torn/failed write and interleaving of concurrent starters over the cache file, and arbitrary prior content",
 "Tests run one process on a healthy disk with a complete or missing cache file; crash points, torn content, disk errors and racing starters are never produced.",
 ["ttp/ttp.py"],
 [("load, version check, rebuild and save of the pickled function table", "ttp/ttp.py lazy_import_functions"), ("deferred plugin import", "ttp/ttp.py CachedModule")],
 [("ttp_dict_cache.pickle", "pickled table of plugin functions, in TTPCACHEFOLDER or the package directory", "ttp/ttp.py lazy_import_functions")],
 ["ttp() construction", "parse results", "cache file content after a run"])

prop("C04", "Parser objects in one process are independent of one another",
 "What a parser object returns depends only on its own template, data, variables, lookups and functions and on the calls made on that object: creating, loading, parsing, failing or clearing other parser objects before, after or in between any of those calls never changes it. In particular recorded and global variables, macros, custom functions, output and lookup state and objects the caller passed to several parsers do not leak from one parser to another.",
 ["histories", "programs"],
 "every interleaving of API calls on two or more parser objects in one thread, over all template features that keep state",
 "Tests create parsers one after another and look only at the last one's results; the leak shows only when calls on several live parsers are interleaved in particular orders.",
 ["ttp/ttp.py", "ttp/match", "ttp/group", "ttp/output", "ttp/returners", "ttp/formatters"],
 [("per-parser function table and plugin modules' link to it", "ttp/ttp.py CachedModule.load"), ("module level state of plugins", "ttp/match/dns_lookups.py, ttp/output/*.py, ttp/group/*.py")],
 [("_ttp_", "per-parser table: functions, global vars, current template/parser/results/output objects", "ttp/ttp.py"), ("module globals", "state shared by all parsers of a process", "ttp/*/*.py")],
 ["ttp.result()", "return values of every API call"])

prop("C05", "Parser objects used in different threads do not disturb each other",
 "When several threads each create and use their own parser objects at the same time, every one of them obtains exactly the results, outputs and errors it would obtain running alone, for every interleaving of the threads. This includes first use of functions while another thread loads the same ones, and outputs written or sent by several threads.",
 ["schedules", "programs"],
 "every interleaving of 2..4 threads at source-line granularity, each with its own parser objects, over all template features",
 "No test uses threads; an interleaving that matters is a switch at particular lines, which the interpreter produces rarely and never on demand.",
 ["ttp/ttp.py", "ttp/match", "ttp/group", "ttp/returners"],
 [("per-parser function table and plugin modules' link to it", "ttp/ttp.py CachedModule.load")],
 [("_ttp_", "per-parser glue dictionary reached through plugin modules' globals", "ttp/*/*.py")],
 ["ttp.result()", "messages sent and files written by outputs"])

prop("C06", "A failed or interrupted parse leaves the parser object usable",
 "If parse() is ended early by an exception at any point - a raising macro or custom function, a data file that cannot be read, an output that fails, memory exhaustion or a keyboard interrupt at any line - the error reaches the caller and the object is not damaged. After clearing the results and setting the input again, the same object produces exactly what a newly created parser produces, and data added as input is not changed or lost by the failure.",
 ["crash_points", "histories", "fault_sequences"],
 "every line at which an exception can arrive, every macro/function/output call and file operation that can fail, in every position of a call history",
 "Tests do not interrupt parsing; a broken invariant needs an exception at one particular line followed by a re-use of the same object.",
 ["ttp/ttp.py"],
 [("state rebuilt for each datum and each parse", "ttp/ttp.py _parser_class.set_data/parse, __parse_in_one_process"), ("clear_result / clear_input / set_input", "ttp/ttp.py")],
 [("template.results, template.inputs, groups' runs, _ttp_ entries", "state that outlives one parse", "ttp/ttp.py")],
 ["exceptions from ttp.parse()", "ttp.result() after clear and re-parse"])

prop("C07", "Any sequence of API calls behaves as the documented parser life cycle",
 "For every sequence of calls that add or replace templates, input data, variables and lookups, parse, fetch results in any structure, and clear input or results, the results equal those of the documented life cycle: each parse appends one result per input datum in input order using the settings in force, clearing removes exactly what it names, and an object that was cleared and reloaded equals a fresh one. Data is read from files at parse time, fetching results has no side effect, and results handed out earlier and objects passed in by the caller are never modified by later calls.",
 ["histories", "inputs"],
 "every history of API calls on one parser, with one or several templates, inputs given as text, files, directories and structures, and files changing between calls",
 "Tests use the fixed sequence create, parse, result; re-use orders (clear in between, partial clears, repeated parse, files changing) form an unbounded space of histories.",
 ["ttp/ttp.py"],
 [("add_input/set_input/clear_input/add_template/add_vars/add_lookup/parse/result/clear_result", "ttp/ttp.py"), ("form_results, run_outputs", "ttp/ttp.py _template_class")],
 [("template.inputs, template.results, template.vars, template.lookups", "per template state between calls", "ttp/ttp.py")],
 ["ttp.result(structure=...)", "ttp.get_input_load()", "objects returned or passed in earlier"])

prop("C08", "Input files are parsed whole and exactly once, or the failure is reported",
 "Every file accepted as input contributes the results of its full content exactly once, under every outcome of opening and reading it: if a file disappears, cannot be opened, read or decoded, or the disk fails part-way, parse() raises an error that the caller can see - it never silently drops the file, parses part of it, or parses something that is not its content (such as its path). Which files of a directory are parsed follows only from the directory content and the documented filters, and short reads or the enumeration order of the directory never change the results.",
 ["fault_sequences", "inputs"],
 "every disk fault or concurrent file change at every file operation of loading and parsing, every directory enumeration order",
 "Tests read small files that exist from a healthy disk; no test removes, damages or withholds a file between being added and being parsed, or fails a read half-way.",
 ["ttp/utils/loaders.py", "ttp/ttp.py"],
 [("load_files: path classification, directory listing, reading", "ttp/utils/loaders.py"), ("deferred reading of file datums", "ttp/ttp.py _parser_class.set_data")],
 [("datum tuples (file_name, path) / (text_data, text)", "what an input holds until parse", "ttp/ttp.py _input_class")],
 ["ttp.parse() outcome", "ttp.result()"])

prop("C09", "Outputs to files are written exactly and completely, or the failure is reported",
 "When parse() returns normally, every file output has put exactly the formatted results, complete and once, into the file named by its settings, and an update of an existing workbook has kept the old rows and appended the new ones exactly once. If creating the directory or opening, writing or closing the file fails, parse() raises and nothing but that target is touched, even when several processes or threads write to the same new directory at the same time. Writing to files never changes the results the parser returns.",
 ["fault_sequences", "schedules", "histories"],
 "every failing or short file-system operation of an output, every race for the output directory, repeated parses and updates",
 "Tests write one small file to a healthy disk and read it back; failing or short writes, full disks, vanishing or concurrently created directories and repeated updates are not produced.",
 ["ttp/returners/file_returner.py", "ttp/formatters/excel_formatter.py", "ttp/ttp.py"],
 [("file returner: directory creation, name formatting, write", "ttp/returners/file_returner.py"), ("workbook creation and update", "ttp/formatters/excel_formatter.py"), ("outputter run", "ttp/ttp.py _outputter_class.run")],
 [("output files", "files below the output's url", "ttp/returners/file_returner.py")],
 ["file system content after parse()", "ttp.parse() outcome", "ttp.result()"])

prop("C10", "Syslog output sends each item once, in order, to every reachable server",
 "Each non-empty result item is sent exactly once and in order to every configured server, as its JSON text with the configured port and facility and at least the configured interval apart. A server or single message that fails (name not resolvable, send error) costs only itself - not the other messages, the other servers, other outputs or the parse - and the returned results are unchanged. No socket or log handler stays behind, and messages of one output never reach the servers of another, also when outputs run in several threads.",
 ["fault_sequences", "schedules", "histories"],
 "every placement of resolution, connect and send failures over servers and messages, repeated runs, several parsers and threads, clock jumps during the interval",
 "The only test needs a live syslog server and checks nothing about loss, order, failing servers or concurrent use.",
 ["ttp/returners/syslog_returner.py"],
 [("per-server send loop", "ttp/returners/syslog_returner.py")],
 [("logger and handler used for sending", "process wide logging object", "ttp/returners/syslog_returner.py")],
 ["datagrams sent per server", "logging handlers and sockets left open", "ttp.result()"])

prop("C11", "DNS lookups never break, stall or falsify parsing whatever the network does",
 "A forward or reverse DNS lookup in a template replaces or annotates the match with exactly the answer of the configured name servers, and leaves the match unchanged when there is no answer, whatever mixture of loss, delay, duplication, garbage, refusal or server failure occurs. Each lookup ends within its configured timeout times the number of servers (plus a small constant), parsing always completes with all other matches intact, and the settings, failures or answers of one lookup do not affect the next.",
 ["fault_sequences", "histories", "inputs"],
 "every sequence of network faults and server behaviours over every sequence of lookups with differing servers, timeouts and record types",
 "Tests need the real Internet DNS and assert one happy answer; loss, delays, server failure codes and sequences of differing lookups cannot be produced there.",
 ["ttp/match/dns_lookups.py"],
 [("dns_forward / dns_reverse and the shared resolver", "ttp/match/dns_lookups.py")],
 [("resolver object", "servers and timeouts used by lookups", "ttp/match/dns_lookups.py")],
 ["ttp.result()", "simulated time per lookup", "queries sent per server"])

prop("C12", "Time values in results and file names come from one consistent clock reading",
 "Every time-based template variable equals the clock at some single instant between the start of loading and the end of the parse step that computed it, in the documented format with all its digits; date, time and fraction of one value never mix two instants, also when the clock is read across a second, day or year boundary, stands still or jumps either way. Time-stamped file names denote the moment the template was loaded (strftime in a file name) or the output ran (default name), not an earlier one.",
 ["schedules", "histories"],
 "every clock behaviour (rate, steps forward and back, boundary crossings between any two readings, any fraction of a second) and every history of parser creation and parsing",
 "Tests cannot choose what the clock returns and only check that a value is present; wrong digits or torn values appear for a small share of instants.",
 ["ttp/variable/time_funcs.py", "ttp/returners/file_returner.py", "ttp/ttp.py"],
 [("time variable getters", "ttp/variable/time_funcs.py"), ("default file name", "ttp/returners/file_returner.py"), ("strftime in filename attribute", "ttp/ttp.py _outputter_class")],
 [("clock readings", "time.time/time.strftime/datetime.now", "ttp/variable/time_funcs.py")],
 ["ttp.result()", "names of written files"])

prop("C13", "Results do not depend on hash seed, directory order, process history or timing",
 "Two runs that get the same template, data and calls produce identical results, byte for byte when formatted, whatever hash seed the process runs with, whatever order the file system lists directories in, whatever else the process did before, and whether the function cache was cold or warm. This covers the order of keys and items, macro precedence, wildcard and set based features, lookups and generated text.",
 ["configurations", "histories", "schedules"],
 "every hash seed, directory enumeration order, cache state and prior history of the process, over all template features",
 "A test run uses one hash seed and one file system; a dependence on set or directory order passes whenever the observed order happens to be the expected one.",
 ["ttp/ttp.py", "ttp/utils/loaders.py", "ttp/group", "ttp/match", "ttp/formatters"],
 [("ordered containers through load, parse and output", "ttp/ttp.py"), ("directory listing", "ttp/utils/loaders.py")],
 [("macro_text, groups_indexes, other set-based collections", "iteration order may follow the hash seed", "ttp/ttp.py")],
 ["ttp.result()", "formatted text"])

prop("C14", "The result of one datum does not depend on the other data being parsed",
 "In per-input mode, the result of each datum equals what parsing that datum alone with the same template gives: adding, removing, repeating, reordering or failing other datums or inputs, or parsing them earlier with the same object, changes neither its result nor any other's. Only features documented to carry state over (recording and counting variables, lookups into earlier results) are excepted, and these carry over in input order.",
 ["histories", "inputs"],
 "every set, order and splitting over parse calls of datums and inputs, over all template features without documented carry-over",
 "Tests parse one or two datums per template and compare a fixed list; a value leaking from one datum to the next needs a particular earlier datum, e.g. one where a group or variable is matched and then absent.",
 ["ttp/ttp.py"],
 [("per-datum reset of variables, group defaults and results", "ttp/ttp.py _parser_class.set_data, _group_class.set_runs, _results_class")],
 [("groups' runs, template vars, regex/variable objects, _ttp_", "state shared by all datums of a template", "ttp/ttp.py")],
 ["ttp.result()"])

prop("C15", "The command line tool does what the library does and never loses output silently",
 "Running the command line tool on files prints exactly the results the library returns for the same data, template, variables and options, in the chosen structure and format, in single and multi-process mode. If a data file cannot be read or parsing fails, the tool ends with a non-zero exit status or a visible error, rather than printing partial results as if complete.",
 ["configurations", "fault_sequences", "schedules"],
 "every combination of options over data directories of several files, worker schedules in multi-process mode, and file faults",
 "The only command line tests run a few fixed invocations in single-process mode on existing files.",
 ["ttp/ttp.py"],
 [("cli_tool", "ttp/ttp.py")], [], ["standard output and exit status of the tool"])

prop("C23", "Templates kept in files are loaded whole and in place, or loading fails visibly",
 "A template put together from files (main template in a file, directory or TTP_TEMPLATES_DIR; extend tags at any level with their filters and macros; included files of variables and lookup tables) parses exactly like the same template written in one piece. The files are read when the template is loaded: later changes of them do not matter to a loaded parser, and a parser made later sees the new content. Whatever opening, reading or listing these files does (short reads, vanished, unreadable or undecodable files, I/O errors), loading raises or logs an error rather than producing a template with parts silently missing, and a failed load leaves the parser as it was.",
 ["fault_sequences", "inputs", "histories"],
 "every way of splitting a template into files, every outcome and fault of each file operation while loading, every change of the files afterwards",
 "The tests extend a few fixed existing files one level deep; none has a fault, a changed file or a nested combination.",
 ["ttp/ttp.py", "ttp/utils/loaders.py"],
 [("handle_extend, filter_extend, add_template", "ttp/ttp.py"), ("load_files, load_struct", "ttp/utils/loaders.py")], [], ["ttp.result()", "error raised or logged by loading"])

# ------------------------------------------------------------------ outside the family
NA = "one deterministic function of the template and the text: no scheduling, time, I/O, crash or multi-party behaviour for it to depend on"
prop("C16", "Templates match exactly the lines they describe",
 "A template line matches a line of the data exactly when the literal text, indicators and patterns of its variables describe that line, whatever special characters template and data hold, and the values captured are exactly the matched parts.",
 ["inputs"], "every template and every text", "The tests hold examples; the space of templates and texts is unbounded.",
 ["ttp/ttp.py", "ttp/patterns/get_pattern.py"], [("form_regex", "ttp/ttp.py _variable_class"), ("patterns", "ttp/patterns/get_pattern.py")], [], ["ttp.result()"])
prop("C17", "Results are structured as group names and nesting say",
 "Matches are combined into the structure given by group names, paths, path formatters, nesting, start/end indicators and default values; no match that belongs to a started, valid group is lost or attached to another group's record.",
 ["inputs"], "every template structure and every text", "Examples only; structures combine freely.",
 ["ttp/ttp.py"], [("_results_class", "ttp/ttp.py")], [], ["ttp.result()"])
prop("C18", "Match, group, input and output functions compute what they document",
 "Each built-in function returns the documented value for every argument, accepts or rejects a match exactly as documented, and never raises for data a template can capture.",
 ["inputs"], "every function, argument and captured value", "Each function has one or two examples.",
 ["ttp/match", "ttp/group", "ttp/input", "ttp/output"], [("plugin functions", "ttp/match, ttp/group, ttp/input, ttp/output")], [], ["ttp.result()"])
prop("C19", "Formatters represent results faithfully",
 "JSON, YAML, CSV, table, pprint and Jinja2 output represents exactly the given results: loading JSON or YAML output back gives equal data, and tables hold one row per item with values under their own header.",
 ["inputs"], "every results structure", "Examples only.",
 ["ttp/formatters"], [("formatters", "ttp/formatters")], [], ["ttp.result(format=...)"])
prop("C20", "Loaders read variables, lookups and outputs as their format defines",
 "Text in python, json, yaml, ini or csv form inside tags or included files is loaded as that format defines, and lookups find exactly the rows a key denotes.",
 ["inputs"], "every text in each format", "Examples only.",
 ["ttp/utils/loaders.py", "ttp/match/lookup.py"], [("load_struct and loaders", "ttp/utils/loaders.py")], [], ["ttp.result()"])
prop("C22", "Template code is the only code a parse executes",
 "Data, lookups and captured values are never executed: only macro text and python-loader text of the template itself is evaluated, and python-loader text cannot reach builtins.",
 ["inputs"], "every data text, lookup and template attribute", "Tests do not try hostile text.",
 ["ttp/utils/load_python_exec_py3.py", "ttp/utils/get_attributes.py", "ttp/utils/loaders.py"], [("exec/eval of template text", "ttp/utils")], [], ["side effects of parse()"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
