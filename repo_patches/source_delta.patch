From c2e57fb5786ca26c6befeb6d10a572bae854dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 01/44] fix: keep results of multi-process parsing in the order
 of inputs

---
 ttp/ttp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..2d24fc6 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -480,6 +480,7 @@ class ttp:
             for input_name, input_obj in template.inputs.items():
                 for datum in input_obj.data:
                     task_dict = {
+                        "index": num_jobs,
                         "data": datum,
                         "groups_indexes": input_obj.groups_indexes,
                         "input_functions": input_obj.functions,
@@ -491,9 +492,10 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
-            for i in range(num_jobs):
-                result = results_queue.get()
-                template.form_results(result)
+            # workers finish in any order, restore the order of inputs
+            results = dict(results_queue.get() for i in range(num_jobs))
+            for index in range(num_jobs):
+                template.form_results(results[index])
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -878,7 +880,7 @@ class _worker(Process):
             result = self.parserObj.main_results
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put(result)
+            self.results_queue.put((next_task["index"], result))
         return
 
 
-- 
2.43.0


From 02b368c24d8fd10405b1e842ccfcaaaea218d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 02/44] fix: keep built-in functions of a scope in workers when
 custom functions added to it

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2d24fc6..8d68dbb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -836,7 +836,9 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        # add custom functions to each scope preserving built-in functions
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From 3c7ac97fb40fc65d3587af79eaf2e261b3e616f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 03/44] fix: raise error if multi-process worker fails instead
 of waiting forever

---
 ttp/ttp.py | 98 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 72 insertions(+), 26 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8d68dbb..363fe42 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -8,12 +8,18 @@ import logging
 import copy
 import ast
 import pickle
+import traceback
 from xml.etree import cElementTree as ET
 from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
 from sys import getsizeof
 from collections import OrderedDict
 
+try:
+    from queue import Empty
+except ImportError:  # Python 2
+    from Queue import Empty
+
 
 # Initiate global variables
 log = logging.getLogger(__name__)
@@ -475,28 +481,63 @@ class ttp:
                 )
                 for i in range(num_processes)
             ]
-            [w.start() for w in workers]
-
-            for input_name, input_obj in template.inputs.items():
-                for datum in input_obj.data:
-                    task_dict = {
-                        "index": num_jobs,
-                        "data": datum,
-                        "groups_indexes": input_obj.groups_indexes,
-                        "input_functions": input_obj.functions,
-                    }
-                    tasks.put(task_dict)
-                    num_jobs += 1
-            [tasks.put(None) for i in range(num_processes)]
+            try:
+                [w.start() for w in workers]
 
-            # wait for all tasks to complete
-            tasks.join()
+                for input_name, input_obj in template.inputs.items():
+                    for datum in input_obj.data:
+                        task_dict = {
+                            "index": num_jobs,
+                            "data": datum,
+                            "groups_indexes": input_obj.groups_indexes,
+                            "input_functions": input_obj.functions,
+                        }
+                        tasks.put(task_dict)
+                        num_jobs += 1
+                [tasks.put(None) for i in range(num_processes)]
+
+                # collect results of all tasks
+                results = self.__collect_results(workers, results_queue, num_jobs)
+                [w.join(5) for w in workers]
+            finally:
+                # stop workers still running, e.g. if one of them failed
+                for w in workers:
+                    if w.is_alive():
+                        w.terminate()
+                        w.join()
+                # do not wait for tasks that nobody going to take
+                tasks.cancel_join_thread()
 
             # workers finish in any order, restore the order of inputs
-            results = dict(results_queue.get() for i in range(num_jobs))
             for index in range(num_jobs):
                 template.form_results(results[index])
 
+    def __collect_results(self, workers, results_queue, num_jobs):
+        """Method to collect num_jobs results from workers, returns dictionary
+        keyed by task index, raises RuntimeError if any of the workers failed.
+        """
+        results = {}
+        while len(results) < num_jobs:
+            # check workers first as worker sends all its results before it ends
+            failed = [w for w in workers if w.exitcode not in (None, 0)]
+            ended = not any(w.is_alive() for w in workers)
+            try:
+                index, result, error = results_queue.get(timeout=1)
+            except Empty:
+                if failed or ended:
+                    raise RuntimeError(
+                        "ttp.parse: multiprocess worker died, exit codes {}".format(
+                            [w.exitcode for w in workers]
+                        )
+                    )
+                continue
+            if error:
+                raise RuntimeError(
+                    "ttp.parse: multiprocess worker failed:\n{}".format(error)
+                )
+            results[index] = pickle.loads(result)
+        return results
+
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
         against each template and results saved in results list
@@ -871,18 +912,23 @@ class _worker(Process):
             if next_task is None:
                 self.task_queue.task_done()
                 break
-            # set parser object parameters
-            self.parserObj.set_data(
-                next_task["data"],
-                main_results={},
-                input_functions=next_task["input_functions"],
-            )
-            # parse and get results
-            self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.main_results
+            result, error = None, None
+            try:
+                # set parser object parameters
+                self.parserObj.set_data(
+                    next_task["data"],
+                    main_results={},
+                    input_functions=next_task["input_functions"],
+                )
+                # parse and get results
+                self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
+                # pickle here, queue drops results that it fails to pickle
+                result = pickle.dumps(self.parserObj.main_results)
+            except (Exception, SystemExit):
+                error = traceback.format_exc()
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put((next_task["index"], result))
+            self.results_queue.put((next_task["index"], result, error))
         return
 
 
-- 
2.43.0


From 9adc196578d06e42c10658d56617e67ce8e1e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 04/44] fix: make custom macro functions available to child
 templates and keep template macros private

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 363fe42..a56378e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -973,7 +973,10 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        self.ttp_macro = ttp_macro  # need to save it to pass to child templates
+        # dictionary of macro name to function mapping, copy it as this template's
+        # macros are not custom functions and are not for other templates to use
+        self.macro = dict(ttp_macro)
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
             set()
@@ -1241,6 +1244,7 @@ class _template_class:
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
                 name=str(template_index),
+                ttp_macro=self.ttp_macro,
                 _ttp_=self._ttp_,
             )
         )
-- 
2.43.0


From 19e2c798e7e6ee4e471ce935fc8a4c5552447a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 05/44] fix: run group specific outputs with macro and
 variables of multi-process worker

---
 ttp/ttp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a56378e..d7ccf96 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -478,6 +478,8 @@ class ttp:
                     macro_text=template.macro_text,
                     custom_functions=self._ttp_.get("_custom_functions_", {}),
                     dynamic_path_key_to_int=self._ttp_["dynamic_path_key_to_int"],
+                    ttp_object=self,
+                    template_obj=template,
                 )
                 for i in range(num_processes)
             ]
@@ -874,6 +876,8 @@ class _worker(Process):
         macro_text,
         custom_functions,
         dynamic_path_key_to_int,
+        ttp_object,
+        template_obj,
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
@@ -881,6 +885,9 @@ class _worker(Process):
         for scope, functions in custom_functions.items():
             self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
+        self._ttp_["ttp_object"] = ttp_object
+        self._ttp_["template_obj"] = template_obj
+        self.groups = groups
         self.task_queue = task_queue
         self.results_queue = results_queue
         self.macro_text = macro_text
@@ -905,6 +912,10 @@ class _worker(Process):
 
     def run(self):
         self.load_functions()
+        # groups' outputs should use macro and variables of this process
+        for group in self.groups:
+            for output in group.outputs:
+                output._ttp_ = self._ttp_
         # run tasks
         while True:
             next_task = self.task_queue.get()
-- 
2.43.0


From 7be704c744d269216f96a41bc5c0a0aa696b7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 06/44] fix: load macro in multi-process workers in the order
 of their definition

---
 ttp/ttp.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d7ccf96..80eb517 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -989,9 +989,7 @@ class _template_class:
         # macros are not custom functions and are not for other templates to use
         self.macro = dict(ttp_macro)
         self.results_method = "per_input"  # how to join results
-        self.macro_text = (
-            set()
-        )  # set to contain macro functions text to transfer into other processes
+        self.macro_text = []  # list of macro functions text, in order of their definition, to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
@@ -1233,7 +1231,7 @@ class _template_class:
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.add(element.text)
+            self.macro_text.append(element.text)
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
-- 
2.43.0


From ac6714a86f66c61de2e33059ac4d0bfa041d8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 07/44] fix: do not modify parsing results by dict_to_list
 output function

---
 ttp/output/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..367a0ff 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,6 +57,7 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
+            v = dict(v)  # do not modify data, it can be parsing results
             v.update({key_name: k})
             result.append(v)
     elif isinstance(traversed_data, list):
-- 
2.43.0


From ac7fd243172123dd795340736f00aa11d4983494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 08/44] fix: allow to parse again and clear results formatted
 by output, keep result lists given to the user intact

---
 ttp/ttp.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 80eb517..44e5ddc 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -435,6 +435,7 @@ class ttp:
         In addition to 3 TTP will check if number of input data items more then 1, if so
         multiple processes will be used and one process otherwise.
         """
+        [template.start_results() for template in self._templates]
         # add self.__data to templates and get file count and size:
         self._calculate_overall_data_size()
         log.info(
@@ -750,14 +751,9 @@ class ttp:
         # filter templates objects to clear results for
         templates = [templates] if isinstance(templates, str) else templates
         # clear results
-        if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
-        else:
-            [t_obj.results.clear() for t_obj in self._templates]
+        for t_obj in self._templates:
+            if not templates or t_obj.name in templates:
+                t_obj.clear_results()
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
@@ -983,6 +979,7 @@ class _template_class:
         self.templates = []
         self.base_path = base_path
         self.results = []
+        self.parsed_results = []  # results as they were before running outputs
         self.name = name
         self.ttp_macro = ttp_macro  # need to save it to pass to child templates
         # dictionary of macro name to function mapping, copy it as this template's
@@ -1047,8 +1044,26 @@ class _template_class:
             self.vars.update(data)
             [template.add_vars(data) for template in self.templates]
 
+    def clear_results(self):
+        """Method to forget results, lists given to the user left intact"""
+        self.results = []
+        self.parsed_results = []
+
+    def start_results(self):
+        """Method to start next parse with results of previous one as they were
+        before outputs changed their format, uses new list as user can have
+        reference to the old one"""
+        self.results = (
+            list(self.parsed_results)
+            if isinstance(self.parsed_results, list)
+            else self.parsed_results
+        )
+
     def run_outputs(self):
         """Method to run template outputs with template results"""
+        self.parsed_results = (
+            list(self.results) if isinstance(self.results, list) else self.results
+        )
         for output in self.outputs:
             self.results = output.run(self.results, macro=self.macro)
 
-- 
2.43.0


From 364b5b3e68be9e75d28fcadc6ce94c218e855397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 09/44] fix: give each parser its own copy of plugin modules,
 do not share _ttp_ dictionary between parsers

---
 ttp/ttp.py | 70 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 44e5ddc..a0e7c83 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -20,6 +20,11 @@ try:
 except ImportError:  # Python 2
     from Queue import Empty
 
+try:
+    from importlib.util import find_spec, module_from_spec
+except ImportError:  # Python 2
+    find_spec = None
+
 
 # Initiate global variables
 log = logging.getLogger(__name__)
@@ -35,10 +40,17 @@ TTP LAZY IMPORT SYSTEM
 class CachedModule:
     """Class that contains name of the function and path to module/file
     that contains that function, on first call to this class, function
-    will be imported into _ttp_ dictionary, subsequent calls we call
-    function directly
+    will be imported, subsequent calls we call function directly.
+
+    Functions' modules refer to _ttp_ dictionary in their globals space, for that
+    reason each _ttp_ dictionary uses its own copy of the module.
     """
 
+    # function imported on first call
+    function = None
+    # dictionary of module path to (spec, code) tuple
+    modules_code = {}
+
     def __init__(self, import_path, parent_dir, function_name, functions, _ttp_):
         self.import_path = import_path
         self.parent_dir = parent_dir
@@ -46,33 +58,63 @@ class CachedModule:
         self.parent_module_functions = functions
         self._ttp_ = _ttp_
 
+    def __getstate__(self):
+        # imported function refer to module copy, it cannot be pickled
+        state = self.__dict__.copy()
+        state.pop("function", None)
+        return state
+
+    def load_module(self, path):
+        if find_spec is None:
+            module = __import__(path, fromlist=[None])
+            # add _ttp_ to module globals space
+            setattr(module, "_ttp_", self._ttp_)
+            return module
+        # find module and read its code once only
+        if path not in self.modules_code:
+            spec = find_spec(path)
+            self.modules_code[path] = (spec, spec.loader.get_code(path))
+        spec, code = self.modules_code[path]
+        module = module_from_spec(spec)
+        # add _ttp_ to module globals space
+        setattr(module, "_ttp_", self._ttp_)
+        exec(code, module.__dict__)
+        return module
+
     def load(self):
-        # import cached function and insert it into _ttp_ dictionary
+        # import cached function together with other functions of its module
         abs_import = "ttp."
         if __name__ in ("__main__", "__mp_main__"):
             abs_import = ""
         path = "{abs}{imp}".format(abs=abs_import, imp=self.import_path)
-        module = __import__(path, fromlist=[None])
-        # add _ttp_ to module globals space
-        setattr(module, "_ttp_", self._ttp_)
+        module = self.load_module(path)
         try:
             _name_map_ = getattr(module, "_name_map_")
         except AttributeError:
             _name_map_ = {}
         for func_name in self.parent_module_functions:
             name = _name_map_.get(func_name, func_name)
-            self._ttp_[self.parent_dir][name] = getattr(module, func_name)
+            if name == self.function_name:
+                self.function = getattr(module, func_name)
+            # custom function can be in use instead of the one from the module
+            cached = self._ttp_[self.parent_dir].get(name)
+            if (
+                isinstance(cached, CachedModule)
+                and cached.import_path == self.import_path
+            ):
+                cached.function = getattr(module, func_name)
 
     def __call__(self, *args, **kwargs):
-        # this method invoked on CachedModule class call, triggering function import
-        log.info(
-            "calling CachedModule: module '{}', function '{}'".format(
-                self.import_path, self.function_name
+        # first call to this method triggers function import
+        if self.function is None:
+            log.info(
+                "calling CachedModule: module '{}', function '{}'".format(
+                    self.import_path, self.function_name
+                )
             )
-        )
-        self.load()
+            self.load()
         # call original function
-        return self._ttp_[self.parent_dir][self.function_name](*args, **kwargs)
+        return self.function(*args, **kwargs)
 
 
 def lazy_import_functions():
-- 
2.43.0


From a08ea7455be033881374c5b4ee9189558141e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 10/44] fix: do not modify variables dictionary given to the
 parser

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a0e7c83..db91322 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -279,7 +279,8 @@ class ttp:
         self._templates = []
         self.base_path = base_path
         self.multiproc_threshold = 5242880  # in bytes, equal to 5MBytes
-        self.vars = vars or {}  # dictionary of variables to add to each template vars
+        # dictionary of variables to add to each template vars, copy it as add_vars updates it
+        self.vars = dict(vars or {})
         self.lookups = {}
         # setup logging
         logging_config(log_level, log_file)
-- 
2.43.0


From 9b28b71e2b3de8432d63e98a528365954870fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 11/44] fix: read clock once and give all digits of
 milliseconds in get_timestamp_ms

---
 ttp/variable/time_funcs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ttp/variable/time_funcs.py b/ttp/variable/time_funcs.py
index dcc1c3f..52e0576 100644
--- a/ttp/variable/time_funcs.py
+++ b/ttp/variable/time_funcs.py
@@ -12,8 +12,12 @@ def get_date(*args, **kwargs):
 
 
 def get_timestamp_ms(*args, **kwargs):
-    strformat = "%Y-%m-%d %H:%M:%S.{ms}"
-    return time.strftime(strformat).format(ms=str(time.time()).split(".")[-1][:3])
+    strformat = "%Y-%m-%d %H:%M:%S"
+    # read the clock once, so that milliseconds belong to the same second
+    now = time.time()
+    return "{}.{:03d}".format(
+        time.strftime(strformat, time.localtime(now)), int(now * 1000) % 1000
+    )
 
 
 def get_timestamp(*args, **kwargs):
-- 
2.43.0


From 1d0acd8923d6bb2d86fbaf40bd6f57ac5abcc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 12/44] fix: isolate syslog outputs from each other and carry
 on if syslog server is not usable

---
 ttp/returners/syslog_returner.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ttp/returners/syslog_returner.py b/ttp/returners/syslog_returner.py
index a2458ea..d370b41 100644
--- a/ttp/returners/syslog_returner.py
+++ b/ttp/returners/syslog_returner.py
@@ -20,17 +20,23 @@ def syslog(data, **kwargs):
     facility = kwargs.get("facility", 77)
     path = kwargs.get("path", [])
     iterate = kwargs.get("iterate", True)
-    interval = kwargs.get("interval", 1) / 1000
+    interval = float(kwargs.get("interval", 1)) / 1000
     # normalize source_data to list:
     source_data = data if isinstance(data, list) else [data]
-    # initiate isolated logger
-    syslog_logger = logging.getLogger("_Custom_Syslog_Logger_")
-    syslog_logger.propagate = False
-    syslog_logger.setLevel(logging.INFO)
+    # initiate isolated logger, getLogger would return the one shared with other outputs
+    syslog_logger = logging.Logger("_Custom_Syslog_Logger_", level=logging.INFO)
     for server in servers:
-        handler = logging.handlers.SysLogHandler(
-            address=(server, port), facility=facility
-        )
+        try:
+            handler = logging.handlers.SysLogHandler(
+                address=(server, port), facility=facility
+            )
+        except Exception:
+            log.error(
+                "TTP:syslog returner, failed to connect to server '{}', error:\n'{}'".format(
+                    server, traceback.format_exc()
+                )
+            )
+            continue
         handler.append_nul = False
         syslog_logger.addHandler(handler)
         # send data
-- 
2.43.0


From 34193eeb3c701a3f58ee00a58588fddb598e4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 13/44] fix: do not suppress keyboard interrupt and system exit

---
 ttp/group/lookup.py              |  2 +-
 ttp/group/to_converters.py       |  8 ++++----
 ttp/group/to_ip.py               |  2 +-
 ttp/lookup/geoip2.py             |  2 +-
 ttp/match/geoip_lookup.py        |  6 +++---
 ttp/match/ip.py                  |  4 ++--
 ttp/match/to.py                  |  2 +-
 ttp/output/validate_cerberus.py  |  2 +-
 ttp/output/validate_yangson.py   |  6 +++---
 ttp/returners/syslog_returner.py |  6 +++---
 ttp/ttp.py                       |  4 ++--
 ttp/utils/get_attributes.py      |  2 +-
 ttp/utils/loaders.py             | 12 ++++++------
 13 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 6d6a290..fa74a9d 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -61,7 +61,7 @@ def lookup(
     if add_field:
         try:
             data[add_field] = found_value
-        except:
+        except Exception:
             log.error("ttp.group.lookup failed to add new field '{}'".format(add_field))
     elif update is True and isinstance(found_value, dict):
         data.update(found_value)
diff --git a/ttp/group/to_converters.py b/ttp/group/to_converters.py
index 2a3da45..3c6c639 100644
--- a/ttp/group/to_converters.py
+++ b/ttp/group/to_converters.py
@@ -25,10 +25,10 @@ def to_int(data, *keys, intlist=False):
         # do best effort string to int conversion
         try:
             data[k] = int(v)
-        except:
+        except Exception:
             try:
                 data[k] = float(v)
-            except:
+            except Exception:
                 pass
 
         # convert list of integer strings to list of integers
@@ -37,10 +37,10 @@ def to_int(data, *keys, intlist=False):
             for i in data[k]:
                 try:
                     converted_list.append(int(i))
-                except:
+                except Exception:
                     try:
                         converted_list.append(float(i))
-                    except:
+                    except Exception:
                         converted_list.append(i)
 
             data[k] = converted_list
diff --git a/ttp/group/to_ip.py b/ttp/group/to_ip.py
index 12801e2..82887e2 100644
--- a/ttp/group/to_ip.py
+++ b/ttp/group/to_ip.py
@@ -6,6 +6,6 @@ def to_ip(data, ip_key, mask_key):
         ip_string = "{}/{}".format(data[ip_key], data[mask_key])
         try:
             data[ip_key] = _ttp_["match"]["to_ip"](ip_string)[0]
-        except:
+        except Exception:
             pass
     return data, None
diff --git a/ttp/lookup/geoip2.py b/ttp/lookup/geoip2.py
index 45d1a14..3b50018 100644
--- a/ttp/lookup/geoip2.py
+++ b/ttp/lookup/geoip2.py
@@ -39,7 +39,7 @@ def geoip2_db_loader(lookup_tag_data):
                 _ = ret.pop(dbname.lower())
                 try:
                     ret[dbname] = geoip2.database.Reader(path_to_db)
-                except:
+                except Exception:
                     log.error(
                         "ttp.lookup.geoip2: something went wrong, failed to load '{}' mmdb from '{}' path".format(
                             dbname, path_to_db
diff --git a/ttp/match/geoip_lookup.py b/ttp/match/geoip_lookup.py
index f395331..cf15c27 100644
--- a/ttp/match/geoip_lookup.py
+++ b/ttp/match/geoip_lookup.py
@@ -23,7 +23,7 @@ def geoip_lookup(data, db_name, add_field="geoip_lookup"):
                 "country": found_value.country.names.get("en", ""),
                 "network": found_value.traits.network.with_prefixlen,
             }
-        except:
+        except Exception:
             log.error(
                 "ttp.match.geoip_lookup: something went wrong searching for '{}' IP in database '{}'".format(
                     data, db_name
@@ -46,7 +46,7 @@ def geoip_lookup(data, db_name, add_field="geoip_lookup"):
                 "state_iso_code": found_value.subdivisions.most_specific.iso_code,
                 "network": found_value.traits.network.with_prefixlen,
             }
-        except:
+        except Exception:
             log.error(
                 "ttp.match.geoip_lookup: something went wrong searching for '{}' IP in database '{}'".format(
                     data, db_name
@@ -61,7 +61,7 @@ def geoip_lookup(data, db_name, add_field="geoip_lookup"):
                 "organization": found_value.autonomous_system_organization,
                 "network": found_value.network.with_prefixlen,
             }
-        except:
+        except Exception:
             log.error(
                 "ttp.match.geoip_lookup: something went wrong searching for '{}' IP in database '{}'".format(
                     data, db_name
diff --git a/ttp/match/ip.py b/ttp/match/ip.py
index 6106fa0..5d4cc98 100644
--- a/ttp/match/ip.py
+++ b/ttp/match/ip.py
@@ -30,7 +30,7 @@ def is_ip(data, *args):
     try:
         _ = to_ip(data, *args)
         return data, True
-    except:
+    except Exception:
         return data, False
 
 
@@ -55,7 +55,7 @@ def to_cidr(data):
     try:
         ret = sum([bin(int(x)).count("1") for x in data.split(".")])
         return ret, None
-    except:
+    except Exception:
         log.error(
             "ttp_functions.match.to_cidr: '{}' is not a valid netmask".format(data)
         )
diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..31ad786 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -37,7 +37,7 @@ def to_unicode(data):
     if _ttp_["python_major_version"] == 2:
         try:
             return unicode(data), None  # pylint: disable=undefined-variable
-        except:
+        except Exception:
             log.error(
                 "ttp.to_int: failed to convert value '{}' to unicode string".format(
                     data
diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..3abd105 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -22,7 +22,7 @@ def _run_validation(data, schema_data, info, errors, result, validator_engine):
         try:
             formatted, _ = _ttp_["group"]["sformat"](data, string=info, add_field="inf")
             ret["info"] = formatted["inf"]
-        except:
+        except Exception:
             ret["info"] = info
     if errors:
         ret[errors] = validator_engine.errors
diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index de85206..3b3df40 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -203,7 +203,7 @@ def validate_yangson(
         else:
             yang_modules_library = _make_library(yang_mod_dir)
         dm = DataModel(yltxt=yang_modules_library, mod_path=[yang_mod_dir])
-    except:
+    except Exception:
         ret["exception"] = traceback.format_exc()
         ret["success"] = False
         ret[
@@ -237,7 +237,7 @@ def validate_yangson(
                 ret["valid"][index] = True
                 if to_xml:
                     ret["result"].append(ET.tostring(inst.to_xml(), encoding="unicode"))
-            except:
+            except Exception:
                 if not metadata:
                     return False
                 ret["exception"][index] = traceback.format_exc()
@@ -249,7 +249,7 @@ def validate_yangson(
             ret["valid"] = True
             if to_xml:
                 ret["result"] = ET.tostring(inst.to_xml(), encoding="unicode")
-        except:
+        except Exception:
             if not metadata:
                 return False
             ret["exception"] = traceback.format_exc()
diff --git a/ttp/returners/syslog_returner.py b/ttp/returners/syslog_returner.py
index d370b41..5d28b24 100644
--- a/ttp/returners/syslog_returner.py
+++ b/ttp/returners/syslog_returner.py
@@ -50,7 +50,7 @@ def syslog(data, **kwargs):
                 continue
             try:
                 item = _ttp_["output"]["traverse"](datum, path)
-            except:
+            except Exception:
                 tb = traceback.format_exc()
                 log.error(
                     "TTP:syslog returner, failed traverse data, path: '{}', error:\n'{}\ndatum: {}..".format(
@@ -65,7 +65,7 @@ def syslog(data, **kwargs):
                     time.sleep(interval)
                     try:
                         syslog_logger.info(json.dumps(i))
-                    except:
+                    except Exception:
                         tb = traceback.format_exc()
                         log.error(
                             "TTP:syslog returner, failed send log item; path: '{}', error:\n'{}".format(
@@ -76,7 +76,7 @@ def syslog(data, **kwargs):
                 time.sleep(interval)
                 try:
                     syslog_logger.info(json.dumps(item))
-                except:
+                except Exception:
                     tb = traceback.format_exc()
                     log.error(
                         "TTP:syslog returner, failed send log item; path: '{}', error:\n'{}".format(
diff --git a/ttp/ttp.py b/ttp/ttp.py
index db91322..d7ae7d9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -180,7 +180,7 @@ def lazy_import_functions():
                 continue
             try:
                 module_file = open("{}/{}".format(root, f), mode="r", encoding="utf-8")
-            except:
+            except Exception:
                 # in some versions of python open() does not support encoding
                 module_file = open("{}/{}".format(root, f), mode="r")
             node = ast.parse(module_file.read())
@@ -2535,7 +2535,7 @@ class _parser_class:
                 result = self._ttp_["variable"][VARvalue](self.DATATEXT, self.DATANAME)
                 if result:
                     self.vars.update({VARname: result})
-            except:
+            except Exception:
                 log.error(
                     "ttp_parser.run_var_functions: '{}' variable function failed".format(
                         VARvalue
diff --git a/ttp/utils/get_attributes.py b/ttp/utils/get_attributes.py
index a2634f6..7d96d0a 100644
--- a/ttp/utils/get_attributes.py
+++ b/ttp/utils/get_attributes.py
@@ -61,7 +61,7 @@ def get_attributes(line):
                 args_kwargs = eval(
                     "_get_args_kwargs({})".format(options), _UndefSubst(globals())
                 )
-            except:
+            except Exception:
                 exc_type, exc_value, exc_traceback = sys.exc_info()
                 traceback_error = "".join(
                     traceback.format_exception(exc_type, exc_value, exc_traceback)
diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 99d6b17..49a49af 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -153,7 +153,7 @@ def load_ini(text_data, include=None, **kwargs):
             for datum in files:
                 try:
                     cfgparser.read(datum[1])
-                except:
+                except Exception:
                     log.error(
                         "ttp_utils.load_struct: Pythom3, Unable to load ini formatted data\n'{}'".format(
                             text_data
@@ -163,7 +163,7 @@ def load_ini(text_data, include=None, **kwargs):
         if text_data:
             try:
                 cfgparser.read_string(text_data)
-            except:
+            except Exception:
                 log.error(
                     "ttp_utils.load_struct: Python3, Unable to load ini formatted data\n'{}'".format(
                         text_data
@@ -184,7 +184,7 @@ def load_ini(text_data, include=None, **kwargs):
             for datum in files:
                 try:
                     cfgparser.read(datum[1])
-                except:
+                except Exception:
                     log.error(
                         "ttp_utils.load_struct: Python2, Unable to load ini formatted data\n'{}'".format(
                             text_data
@@ -195,7 +195,7 @@ def load_ini(text_data, include=None, **kwargs):
             buf_text_data = StringIO.StringIO(text_data)
             try:
                 cfgparser.readfp(buf_text_data)
-            except:
+            except Exception:
                 log.error(
                     "ttp_utils.load_struct: Python2, Unable to load ini formatted data\n'{}'".format(
                         text_data
@@ -238,7 +238,7 @@ def load_yaml(text_data, include=None, **kwargs):
         text_data = _get_include_data(text_data, include)
     try:
         data = safe_load(text_data)
-    except:
+    except Exception:
         log.error(
             "ttp_utils.load_struct: Unable to load YAML formatted data\n'{}'".format(
                 text_data
@@ -256,7 +256,7 @@ def load_json(text_data, include=None, **kwargs):
     try:
         data = loads(text_data)
         return data
-    except:
+    except Exception:
         log.error(
             "ttp_utils.load_struct: Unable to load JSON formatted data\n'{}'".format(
                 text_data
-- 
2.43.0


From b4d658588601c2b0266f979e414c25f2254687b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 14/44] fix: keep match unchanged if DNS servers fail, do not
 use settings of one DNS lookup for the others

---
 ttp/match/dns_lookups.py | 52 +++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 544b768..690aa49 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -1,3 +1,4 @@
+import copy
 import dns.resolver as dnspython
 import dns.reversename
 
@@ -6,29 +7,32 @@ _name_map_ = {"dns_forward": "dns", "dns_reverse": "rdns"}
 dns_resolver_obj = dnspython.dns.resolver.Resolver()
 
 
+def _get_resolver(timeout, servers):
+    """Returns resolver to use for single lookup, so that settings of this
+    lookup and its failures do not affect other lookups"""
+    resolver = copy.copy(dns_resolver_obj)
+    resolver.timeout = timeout
+    if servers:
+        resolver.nameservers = servers
+    resolver.lifetime = timeout * len(resolver.nameservers)
+    return resolver
+
+
 def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
     """Performs forward dns lookup using dns_resolver_obj global object"""
     servers = servers or []
-    dns_resolver_obj.timeout = timeout
-    if servers:
-        if isinstance(servers, str):
-            servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = sorted(servers)
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
+    if isinstance(servers, str):
+        servers = [i.strip() for i in servers.split(",")]
+    resolver = _get_resolver(timeout, sorted(servers))
     try:
-        dns_records = [i.to_text() for i in dns_resolver_obj.query(data, record)]
+        dns_records = [i.to_text() for i in resolver.query(data, record)]
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: dns_records}}
         else:
             return dns_records, None
-    except dnspython.dns.resolver.NXDOMAIN:
+    except dnspython.dns.exception.DNSException:
+        # name does not exist, no answer, timeout, servers failure, not a valid name
         pass
-    except dnspython.dns.resolver.NoAnswer:
-        pass
-    except dnspython.dns.exception.Timeout:
-        # re-initialize dns_resolver object, as it will fail to resolve names for
-        # whatever reason after it timeouts
-        globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
     return data, None
 
 
@@ -37,23 +41,17 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
     data - ip address string, e.g. 192.168.0.1
     """
     servers = servers or []
-    dns_resolver_obj.timeout = timeout
-    if servers:
-        if isinstance(servers, str):
-            servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = servers
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
-    rev_name = dns.reversename.from_address(data)
+    if isinstance(servers, str):
+        servers = [i.strip() for i in servers.split(",")]
+    resolver = _get_resolver(timeout, servers)
     try:
-        reverse_record = str(dns_resolver_obj.query(rev_name, "PTR")[0]).rstrip(".")
+        rev_name = dns.reversename.from_address(data)
+        reverse_record = str(resolver.query(rev_name, "PTR")[0]).rstrip(".")
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: reverse_record}}
         else:
             return reverse_record, None
-    except dnspython.dns.resolver.NXDOMAIN:
-        pass
-    except dnspython.dns.resolver.NoAnswer:
+    except dnspython.dns.exception.DNSException:
+        # address does not exist, no answer, timeout, servers failure, not an IP address
         pass
-    except dnspython.dns.exception.Timeout:
-        globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
     return data, None
-- 
2.43.0


From e93ce1b123820428bbc382dfb1f5f74d328ccaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 15/44] fix: use current time in default file name of file
 returner

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 335598e..3d9aa09 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -5,7 +5,6 @@ import os
 _name_map_ = {"file_returner": "file"}
 
 log = logging.getLogger(__name__)
-ctime = time.strftime("%Y-%m-%d_%H-%M-%S")
 
 
 def file_returner(D, **kwargs):
@@ -24,6 +23,7 @@ def file_returner(D, **kwargs):
         except Exception as e:
             log.error("file_returner: failed format filename - '{}'".format(e))
     else:
+        ctime = time.strftime("%Y-%m-%d_%H-%M-%S")
         filename = "output_{}.txt".format(ctime)
     # if no filename provided, add outputter name to filename
     if not kwargs.get("filename", False):
-- 
2.43.0


From cb18f9b2bec263eab16d3d5e35ce29bc819df772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 16/44] fix: do not fail to write file if neither output name
 nor filename given

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 3d9aa09..1209753 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -26,7 +26,7 @@ def file_returner(D, **kwargs):
         ctime = time.strftime("%Y-%m-%d_%H-%M-%S")
         filename = "output_{}.txt".format(ctime)
     # if no filename provided, add outputter name to filename
-    if not kwargs.get("filename", False):
+    if not kwargs.get("filename", False) and _ttp_["output_object"].name:
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-- 
2.43.0


From d8133baf335b556be5bc67be6ad6da1aef32b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 17/44] fix: do not fail if output directory created by someone
 else at the same time

---
 ttp/returners/file_returner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 1209753..a166d17 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -30,7 +30,12 @@ def file_returner(D, **kwargs):
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-        os.mkdir(url)
+        try:
+            os.mkdir(url)
+        except OSError:
+            # other thread or process can create it at the same time
+            if not os.path.isdir(url):
+                raise
     # form file path:
     file_path = os.path.join(url, filename)
     # save excel workbook to file:
-- 
2.43.0


From 023dd1c5b563a8a5c1840119ac5e23652273d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 18/44] fix: keep tab names of excel formatter table for the
 next use of the output

---
 ttp/formatters/excel_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..843d90e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -36,7 +36,7 @@ def excel_formatter(data, **kwargs):
     table_tabs = []
     for index, tab_det in enumerate(table):
         tab_name = (
-            tab_det.pop("tab_name")
+            tab_det["tab_name"]
             if "tab_name" in tab_det
             else "Sheet{}".format(index)
         )
-- 
2.43.0


From 3904856d691153bf5d6896052b3304845074a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 19/44] fix: load files of directory in the same order on every
 file system

---
 ttp/utils/loaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 49a49af..152abeb 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -69,7 +69,7 @@ def load_files(path, extensions=None, filters=None, read=False):
     elif os.path.isdir(path[0:5000]):
         from re import search as re_search
 
-        files = [f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))]
+        files = [f for f in sorted(os.listdir(path)) if os.path.isfile(os.path.join(path, f))]
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
         for filter in filters:
-- 
2.43.0


From 78ec504ba47fdabe2a286f57c2aadb18da4d9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 20/44] fix: raise error if input file cannot be opened or
 decoded instead of parsing its path

---
 ttp/ttp.py           | 4 +++-
 ttp/utils/loaders.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d7ae7d9..12906f5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2495,7 +2495,9 @@ class _parser_class:
             self.DATATEXT = D[1]
             self.DATANAME = "structured_data"
         else:
-            data = self._ttp_["utils"]["load_files"](path=D[1], read=True)
+            data = self._ttp_["utils"]["load_files"](
+                path=D[1], read=True, is_file=True
+            )
             # data is a list of one tuple - [(data_type, data_text,)]
             self.DATATEXT = "\n" + data[0][1] + "\n\n"
             self.DATANAME = D[1]
diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 152abeb..dd8f767 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -19,11 +19,12 @@ def _load_template_file(filepath, read):
             log.warning(
                 'ttp_utils.load_files: Unicode read error, file "{}"'.format(filepath)
             )
+            raise
     else:
         return [("file_name", filepath)]
 
 
-def load_files(path, extensions=None, filters=None, read=False):
+def load_files(path, extensions=None, filters=None, read=False, is_file=False):
     """
     Method to load files from path, and filter file names with
     REs filters and extensions.
@@ -32,6 +33,8 @@ def load_files(path, extensions=None, filters=None, read=False):
         extensions (list): list of strings files' extensions like ['txt', 'log', 'conf']
         filters (list): list of strings regexes to filter files
         read (bool): if False will return file names, if true will
+        is_file (bool): if True path is a path to file, even if there is no such
+            file any more, do not treat path as a text in that case
     Returns:
         List of (type, text_data) tuples or empty list []  if
         read True, if read False return (type, url,) or []
@@ -58,7 +61,7 @@ def load_files(path, extensions=None, filters=None, read=False):
 
         return [("text_data", get_template(path=path.replace("ttp://", "")))]
     # check if path is a path to file
-    elif os.path.isfile(path[:5000]):
+    elif is_file or os.path.isfile(path[:5000]):
         return _load_template_file(path, read)
     # check if path is a path to file within ttp_templates_dir
     elif ttp_templates_dir and os.path.isfile(
-- 
2.43.0


From 3743e2a96a78a79bab795c00ff39fe4be9e662a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 21/44] fix: never use damaged, incomplete or foreign plugin
 cache file

---
 ttp/ttp.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 12906f5..10480f4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -14,6 +14,7 @@ from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
 from sys import getsizeof
 from collections import OrderedDict
+from hashlib import sha256
 
 try:
     from queue import Empty
@@ -128,6 +129,7 @@ def lazy_import_functions():
         "global_vars": {},
         "template_obj": {},
         "vars": {},
+        "__version__": __version__,
     }
     log.info("ttp.lazy_import_functions: starting functions lazy import")
 
@@ -137,26 +139,20 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
+                checksum, _, cache = f.read().partition(b"\n")
+            # checksum does not match if file is damaged, incomplete or not a cache file
+            if checksum != sha256(cache).hexdigest().encode("ascii"):
+                raise ValueError("cache file is damaged or not a cache file")
+            cached = pickle.loads(cache)
             # use unpickled _ttp_ dictionary if it of the same python version
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached["python_major_version"] == version_info.major
+                and cached.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
-            # rebuilt _ttp_ dictionary as it is of different version
-            else:
-                _ttp_ = {
-                    "macro": {},
-                    "python_major_version": version_info.major,
-                    "global_vars": {},
-                    "template_obj": {},
-                    "vars": {},
-                    "__version__": __version__,
-                }
+                return cached
     except Exception as e:
         log.warning(
             "ttp.lazy_import_functions: failed load ttp_dict_cache.pickle, loading functions directly, error '{}'".format(
@@ -213,8 +209,17 @@ def lazy_import_functions():
             module_file.close()
     # try to cache/pickle _ttp_ to a file for future use
     try:
-        with open(cache_file, "wb") as f:
-            pickle.dump(_ttp_, f)
+        cache = pickle.dumps(_ttp_)
+        # write to temporary file first, so that others never read incomplete cache
+        temp_file = "{}.{}-{}".format(cache_file, os.getpid(), id(_ttp_))
+        try:
+            with open(temp_file, "wb") as f:
+                f.write(sha256(cache).hexdigest().encode("ascii") + b"\n" + cache)
+            getattr(os, "replace", os.rename)(temp_file, cache_file)
+        except Exception:
+            if os.path.exists(temp_file):
+                os.remove(temp_file)
+            raise
     except Exception as e:
         log.warning(
             "ttp.lazy_import_functions: failed to save cache at '{}', error '{}'".format(
-- 
2.43.0


From 83f509bfd9f2fed0f28606e202bf1216e8377935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 22/44] fix: validate data with YANG modules of given directory
 only

---
 ttp/output/validate_yangson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index 3b3df40..2f49af4 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -98,7 +98,10 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
-    for infile in os.listdir(ydir):
+    # forget modules of previously made libraries
+    modmap.clear()
+    submodmap.clear()
+    for infile in sorted(os.listdir(ydir)):
         if not infile.endswith(".yang"):
             continue
         with open(
-- 
2.43.0


From 18678909804eccbff056b4f7f5795648b0fcfdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 23/44] fix: do not skip match function or macro that raised
 KeyError

---
 ttp/ttp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 10480f4..4acd2e2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2580,11 +2580,13 @@ class _parser_class:
                         func_name = item["name"]
                         args = item["args"]
                         kwargs = item["kwargs"]
-                        try:  # try variable function
+                        # run variable function, KeyError raised by function itself
+                        # is an error, it does not mean that there is no such a function
+                        if func_name in self._ttp_["match"]:
                             data, flag = self._ttp_["match"][func_name](
                                 data, *args, **kwargs
                             )
-                        except KeyError:
+                        else:
                             try:  # try data built-in function. e.g. if data is string, can run data.upper()
                                 attrib = getattr(data, func_name)
                                 if callable(attrib):
-- 
2.43.0


From 7c55655c2a205b623137de081eeeda7fe2fc251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 24/44] fix: load files of directory matched by at least one of
 input filters

---
 ttp/utils/loaders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index dd8f767..a789350 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -75,8 +75,9 @@ def load_files(path, extensions=None, filters=None, read=False, is_file=False):
         files = [f for f in sorted(os.listdir(path)) if os.path.isfile(os.path.join(path, f))]
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
-        for filter in filters:
-            files = [f for f in files if re_search(filter, f)]
+        # name of the file should be matched by at least one of the filters
+        if filters:
+            files = [f for f in files if any(re_search(i, f) for i in filters)]
         if read:
             ret = []
             for f in files:
-- 
2.43.0


From c93d8f5ab3ab016cb4b9cb38729cfa75aadd3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 25/44] fix: do not load urls of input again when another input
 of the same name has no data

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4acd2e2..48beea6 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1724,7 +1724,7 @@ class _input_class:
         if self.attributes["load"] == "text" and element_text:
             self.data = [("text_data", element_text)]
             return
-        elif data:
+        elif data is not None:
             for d_item in data:
                 if not d_item in self.data:
                     self.data.append(d_item)
-- 
2.43.0


From c743e663b24b0f588bf343a927cbffb7d6f9a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 26/44] fix: do not create and cache incomplete set of
 functions if directory of functions cannot be listed

---
 ttp/ttp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 48beea6..f4ad981 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -162,9 +162,14 @@ def lazy_import_functions():
     # load functions from files instead
     exclude = "_py3.py" if _ttp_["python_major_version"] == 2 else "_py2.py"
     exclude_modules = ["ttp.py"]
+
+    def raise_error(error):
+        # os.walk ignores errors by default, functions would be missing
+        raise error
+
     # load and parse files
     log.info("ttp.lazy_import_functions: loading files for ast parsing")
-    for item in os.walk(os.path.dirname(__file__)):
+    for item in os.walk(os.path.dirname(__file__), onerror=raise_error):
         root, dirs, files = item
         for f in files:
             if not (
-- 
2.43.0


From 87e5faa313ab4303255cfd0fa5a8e1a7291def25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 27/44] fix: update existing workbook if its file name contains
 variables

---
 ttp/formatters/excel_formatter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 843d90e..74d5392 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -27,8 +27,16 @@ def excel_formatter(data, **kwargs):
     update = kwargs.get("update")
     url = kwargs.get("url", "./Output/")
 
-    # from filename
+    # from filename, it can contain variables same as for file returner
     filename = kwargs.get("filename")
+    try:
+        fkwargs = _ttp_["global_vars"].copy()
+        fkwargs.update(_ttp_["vars"])
+        filename = filename.format(**fkwargs)
+    except Exception as e:
+        log.error(
+            "output.formatter_excel: failed format filename - '{}'".format(e)
+        )
     if not filename.endswith(".xlsx"):
         filename = "{}.xlsx".format(filename)
 
-- 
2.43.0


From 133f129d33ccee2a8352729e7eda0b63e452ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 28/44] fix: do not replace existing workbook if failed to
 access it for update

---
 ttp/formatters/excel_formatter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 74d5392..88a9860 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -1,3 +1,4 @@
+import errno
 import logging
 import os
 
@@ -64,10 +65,16 @@ def excel_formatter(data, **kwargs):
         table_tabs.append({"name": tab_name, "data": tab_table_data})
 
     # check if need to load existing workbook
-    if update and os.path.exists(os.path.join(url, filename)):
-        wb = load_workbook(os.path.join(url, filename))
+    wb = None
+    if update:
+        try:
+            wb = load_workbook(os.path.join(url, filename))
+        except (IOError, OSError) as e:
+            # only if file does not exist it is safe to create new one
+            if e.errno not in (errno.ENOENT, errno.ENOTDIR):
+                raise
     # create workbook
-    else:
+    if wb is None:
         wb = Workbook(write_only=True)
 
     # add data to workbook
-- 
2.43.0


From 37c0d681da5fc3555e8da5ca74025b0ddbbd1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 29/44] fix: syslog returner: facility number given as
 attribute is used instead of losing every message

---
 ttp/returners/syslog_returner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/returners/syslog_returner.py b/ttp/returners/syslog_returner.py
index 5d28b24..5ca17c4 100644
--- a/ttp/returners/syslog_returner.py
+++ b/ttp/returners/syslog_returner.py
@@ -17,7 +17,9 @@ def syslog(data, **kwargs):
         )
         return
     port = int(kwargs.get("port", 514))
+    # facility number is a string if given as XML attribute
     facility = kwargs.get("facility", 77)
+    facility = int(facility) if str(facility).isdigit() else facility
     path = kwargs.get("path", [])
     iterate = kwargs.get("iterate", True)
     interval = float(kwargs.get("interval", 1)) / 1000
-- 
2.43.0


From 3fb72bc93893b3b7a6294a64151d6fa008008644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 30/44] fix: dns: return sorted list of records as documented

---
 ttp/match/dns_lookups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 690aa49..832773b 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -25,7 +25,7 @@ def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
         servers = [i.strip() for i in servers.split(",")]
     resolver = _get_resolver(timeout, sorted(servers))
     try:
-        dns_records = [i.to_text() for i in resolver.query(data, record)]
+        dns_records = sorted(i.to_text() for i in resolver.query(data, record))
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: dns_records}}
         else:
-- 
2.43.0


From 3750fbc3baed042db7900a9e06c14f420842e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 31/44] fix: rdns: text that is not encodable returned
 unmodified instead of raising

---
 ttp/match/dns_lookups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 832773b..e51371a 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -51,7 +51,7 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
             return data, {"new_field": {add_field: reverse_record}}
         else:
             return reverse_record, None
-    except dnspython.dns.exception.DNSException:
+    except (dnspython.dns.exception.DNSException, UnicodeError):
         # address does not exist, no answer, timeout, servers failure, not an IP address
         pass
     return data, None
-- 
2.43.0


From 8ca52341034cf75893b6302477efe2ab6a1c4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 32/44] fix: groups keep template order when more data is added
 to an input

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f4ad981..79ab5d0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1177,7 +1177,7 @@ class _template_class:
         if input_obj.name in self.inputs:
             self.inputs[input_obj.name].load_data(data=input_obj.data)
             self.inputs[input_obj.name].groups_indexes += input_obj.groups_indexes
-            self.inputs[input_obj.name].groups_indexes = list(
+            self.inputs[input_obj.name].groups_indexes = sorted(
                 set(self.inputs[input_obj.name].groups_indexes)
             )
             del input_obj
-- 
2.43.0


From 63bb54f11d527a776c79636892aec5756feac0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 33/44] fix: cli: variables with an apostrophe in a value are
 loaded as given

---
 ttp/ttp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 79ab5d0..d5e52fe 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3800,8 +3800,11 @@ def cli_tool():
     if VARS:
         from json import loads
 
-        VARS = VARS.replace("'", '"')
-        ttp_vars = loads(VARS)
+        try:
+            ttp_vars = loads(VARS)
+        except ValueError:
+            # single quotes used instead of double quotes
+            ttp_vars = loads(VARS.replace("'", '"'))
         if not isinstance(ttp_vars, dict):
             log.error(
                 "cli_tool: Error with -v/--vars argument, value type is '{}', value is '{}', expecting dictionary, exiting...".format(
-- 
2.43.0


From df5a69ffdb390f06d6e4f882d8733f002551e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 34/44] fix: cli: outputter name is accepted in any case,
 results were lost

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d5e52fe..92b7b46 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3840,7 +3840,8 @@ def cli_tool():
             OUT_TEMPLATE = []
         else:
             OUT_TEMPLATE = [i.strip() for i in OUT_TEMPLATE.split(",")]
-        if not OUTPUTTER.lower() in supporrted_cli_tool_outputters:
+        OUTPUTTER = OUTPUTTER.lower()
+        if not OUTPUTTER in supporrted_cli_tool_outputters:
             log.error(
                 "ttp.cli: unsupported outputter '{}', supported: {}, will use 'json' outputter".format(
                     OUTPUTTER, ", ".join(supporrted_cli_tool_outputters)
-- 
2.43.0


From eda19d117882820017bc37d9905217c4198614af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 35/44] fix: cli: missing data or template path is an error,
 path was parsed instead

---
 ttp/ttp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 92b7b46..85ea2bc 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3818,6 +3818,9 @@ def cli_tool():
     # load templates file
     if TEMPLATE_FILE:
         ttp_template = _ttp_["utils"]["load_files"](TEMPLATE_FILE, read=True)[0][1]
+        if ttp_template == TEMPLATE_FILE and not "{{" in ttp_template:
+            log.error("cli_tool: template '{}' not found".format(TEMPLATE_FILE))
+            raise SystemExit(1)
         if TEMPLATE_NAME:
             ttp_template = _ttp_["utils"]["load_struct"](
                 text_data=ttp_template, load="python"
@@ -3826,6 +3829,12 @@ def cli_tool():
     # add data and templates
     parser_Obj.add_template(template=ttp_template)
     if DATA:
+        # load_files returns path itself as a text if nothing found under it
+        if not "\n" in DATA and _ttp_["utils"]["load_files"](DATA) == [
+            ("text_data", DATA)
+        ]:
+            log.error("cli_tool: data '{}' not found".format(DATA))
+            raise SystemExit(1)
         parser_Obj.set_input(data=DATA)
         timing("Data descriptors loaded")
     timing("Template(s) loaded")
-- 
2.43.0


From d6bf875cebf703f3552d5cb1e5f5101816d3dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 36/44] fix: cli: exit status is non-zero when nothing was
 parsed

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 85ea2bc..5321eac 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -498,7 +498,7 @@ class ttp:
         )
         if one is True and multi is True:
             log.critical("ttp.parse - choose one or multiprocess parsing")
-            raise SystemExit()
+            raise SystemExit(1)
         elif one is True:
             self.__parse_in_one_process()
         elif multi is True:
@@ -3811,7 +3811,7 @@ def cli_tool():
                     type(ttp_vars), ttp_vars
                 )
             )
-            raise SystemExit()
+            raise SystemExit(1)
     # create parser object
     parser_Obj = ttp(base_path=BASE_PATH, vars=ttp_vars)
 
-- 
2.43.0


From 3be16514f7b9737c686e14d522a6a38819090fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 37/44] fix: functions are found without function cache when
 run with python -m

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5321eac..021907c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -85,7 +85,8 @@ class CachedModule:
     def load(self):
         # import cached function together with other functions of its module
         abs_import = "ttp."
-        if __name__ in ("__main__", "__mp_main__"):
+        # python -m ttp.ttp has package, python ttp/ttp.py does not
+        if __name__ in ("__main__", "__mp_main__") and not __package__:
             abs_import = ""
         path = "{abs}{imp}".format(abs=abs_import, imp=self.import_path)
         module = self.load_module(path)
-- 
2.43.0


From a25a1dcccc540200bd0a5d3760665347065784a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:17 +0000
Subject: [PATCH 38/44] fix: joining lists of matches changed lookup tables,
 variables and results of other data

---
 ttp/ttp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 021907c..2615b79 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3293,10 +3293,15 @@ class _results_class:
                     if isinstance(self.record["result"][k], str):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
+                        # form new list, existing one can belong to lookup or variable
                         if isinstance(result[k], list):
-                            self.record["result"][k] += result[k]  # join lists
+                            self.record["result"][k] = (
+                                self.record["result"][k] + result[k]
+                            )  # join lists
                         else:
-                            self.record["result"][k].append(result[k])  # append to list
+                            self.record["result"][k] = self.record["result"][k] + [
+                                result[k]
+                            ]  # append to list
                     else:  # transform result to list and append new result to it
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
-- 
2.43.0


From dfde2d6bb7d36a7a10c91bc4884648919743985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 39/44] fix: results shared lists and dictionaries with lookup
 tables, variables and defaults, groups and macro saving into results changed
 them

---
 ttp/group/lookup.py |  4 +++-
 ttp/group/record.py |  6 ++++++
 ttp/group/set_.py   |  5 +++++
 ttp/match/let.py    |  5 +++++
 ttp/match/lookup.py |  6 ++++--
 ttp/match/record.py | 12 ++++++++++--
 ttp/match/set_.py   |  9 +++++++--
 ttp/ttp.py          |  6 +++++-
 8 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index fa74a9d..319b755 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -54,7 +55,8 @@ def lookup(
     # perform lookup:
     try:
         if isinstance(lookup_data, dict):
-            found_value = lookup_data[data[key]]
+            # copy it as results can be changed later on, lookup data must stay the same
+            found_value = deepcopy(lookup_data[data[key]])
     except KeyError:
         return data, None
     # decide what action to do with found value
diff --git a/ttp/group/record.py b/ttp/group/record.py
index 98f35ba..a4972e2 100644
--- a/ttp/group/record.py
+++ b/ttp/group/record.py
@@ -1,7 +1,13 @@
+from copy import deepcopy
+
+
 def record(data, source, target="_use_source_"):
     if source in data:
         # get source var value:
         source_var_value = data[source]
+        # copy it as results can be changed later on, recorded value must stay the same
+        if isinstance(source_var_value, (dict, list)):
+            source_var_value = deepcopy(source_var_value)
         # get target var name:
         if target == "_use_source_":
             target = source
diff --git a/ttp/group/set_.py b/ttp/group/set_.py
index b1bbea6..530e480 100644
--- a/ttp/group/set_.py
+++ b/ttp/group/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -12,6 +14,9 @@ def set_func(data, source, target="_use_source_", default="_no_default_value_"):
         source_var_value = default
     else:
         source_var_value = source
+    # results can be changed later on, variable's value must stay the same
+    if isinstance(source_var_value, (dict, list)):
+        source_var_value = deepcopy(source_var_value)
     # get target var name:
     if target == "_use_source_":
         target = source
diff --git a/ttp/match/let.py b/ttp/match/let.py
index 25d00e0..982e036 100644
--- a/ttp/match/let.py
+++ b/ttp/match/let.py
@@ -1,4 +1,9 @@
+from copy import deepcopy
+
+
 def let(data, name_or_value, var_value="__Undefined_Var_Value__"):
+    # results can be changed later on, template's values must stay the same
+    name_or_value, var_value = deepcopy((name_or_value, var_value))
     if var_value == "__Undefined_Var_Value__":
         data = name_or_value
         return data, None
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6c9a64e..204a305 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -38,7 +39,8 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
         lookup_data = lookup_data.get(i, {})
     # perform lookup:
     try:
-        found_value = lookup_data[data]
+        # copy it as results can be changed later on, lookup data must stay the same
+        found_value = deepcopy(lookup_data[data])
     except KeyError:
         return data, None
     # decide to replace match result or add new field:
@@ -63,7 +65,7 @@ def rlookup(data, name, add_field=False):
         return data, None
     for key in rlookup.keys():
         if key in data:
-            found_value = rlookup[key]
+            found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
     if found_value is None:
diff --git a/ttp/match/record.py b/ttp/match/record.py
index 91e883b..f12a28a 100644
--- a/ttp/match/record.py
+++ b/ttp/match/record.py
@@ -1,4 +1,12 @@
+from copy import deepcopy
+
+
 def record(data, record):
-    _ttp_["vars"].update({record: data})
-    _ttp_["global_vars"].update({record: data})
+    # copy it as results can be changed later on, recorded value must stay the same
+    if isinstance(data, (dict, list)):
+        recorded = deepcopy(data)
+    else:
+        recorded = data
+    _ttp_["vars"].update({record: recorded})
+    _ttp_["global_vars"].update({record: recorded})
     return data, None
diff --git a/ttp/match/set_.py b/ttp/match/set_.py
index fc53481..adbcde0 100644
--- a/ttp/match/set_.py
+++ b/ttp/match/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -6,9 +8,12 @@ def set_func(data, value, match_line):
     if data.rstrip() == match_line:
         if isinstance(value, str):
             if value in vars:
-                return vars[value], None
+                value = vars[value]
             elif value in _ttp_["global_vars"]:
-                return _ttp_["global_vars"][value], None
+                value = _ttp_["global_vars"][value]
+        # results can be changed later on, variable's value must stay the same
+        if isinstance(value, (dict, list)):
+            value = deepcopy(value)
         return value, None
     else:
         return data, False
diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2615b79..0a46eac 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2987,7 +2987,8 @@ class _results_class:
             result = {}
             for var_name in vars_names:
                 if var_name in variables:
-                    result[var_name] = variables[var_name]
+                    # results can be changed later on, variables must stay the same
+                    result[var_name] = copy.deepcopy(variables[var_name])
             self.record = {
                 "result": result,
                 "PATH": [i.strip() for i in path_item.split(".")],
@@ -3379,6 +3380,9 @@ class _results_class:
         """Method to process group results"""
         # add default values to group results
         for k, v in self.record["DEFAULTS"].items():
+            # each group result needs its own value as child groups can save into it
+            if isinstance(v, (dict, list)) and k not in self.record["result"]:
+                v = copy.deepcopy(v)
             self.record["result"].setdefault(k, v)
         # if merge_with_last - tail match, attempt to reconstruct group result
         # this only will work if self.record["result"] contains enough info to form PATH
-- 
2.43.0


From bed993a397bd71c42a86460ab82ac764002d6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 40/44] fix: template tag with text only lost its attributes
 and failed to parse

Template tag that has text but no other tags inside was placed as a whole
into a new template, hence its name and results attributes were ignored,
matches raised KeyError or were lost.
---
 ttp/ttp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0a46eac..72754f3 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1523,11 +1523,10 @@ class _template_class:
             template_ET = ET.XML("<template>\n{}\n</template>".format(template_text))
         # check if template has children, if not, make it an _anonymous_  group
         if not list(template_ET):
-            template_ET = ET.XML(
-                '<template><group name="_anonymous_">\n{}\n</group></template>'.format(
-                    template_text
-                )
-            )
+            # attributes of template tag are left intact
+            group_ET = ET.SubElement(template_ET, "group", {"name": "_anonymous_"})
+            group_ET.text = "\n{}\n".format(template_ET.text or "")
+            template_ET.text = None
         return template_ET
 
     def load_template_xml(self, template_text):
-- 
2.43.0


From eea2b820bb5ec89a8ce4260fdeb56d6f5fe8c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:03 +0000
Subject: [PATCH 41/44] fix: extend tags replaced in place: keep lines after
 the tag, tags of extended templates' own extend tags and extend tags next to
 one that adds no tags

---
 ttp/ttp.py | 58 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 72754f3..eb9dbdb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1463,8 +1463,30 @@ class _template_class:
             for child in template_ET:
                 if child.tag == "macro":
                     self.parse_macro(child)
-        # recursively iterate over etree handling extend tags
-        for index, child in enumerate(template_ET):
+        self.replace_extend_tags(template_ET, top)
+        if top:
+            return ET.tostring(template_ET).decode()
+
+    def replace_extend_tags(self, template_ET, top):
+        """
+        Method to replace extend tags with content of extended templates,
+        including extend tags of extended templates and tags nested within groups.
+
+        :param template_ET: (obj) ET.XML object to replace extend tags in
+        :param top: (bool) indicator if template_ET is at the top or nested in the group
+        """
+
+        def add_text(index, text):
+            # text before the first child is in parent's text, all other in children tails
+            if not (text or "").strip():
+                return
+            if index:
+                template_ET[index - 1].tail = (template_ET[index - 1].tail or "") + text
+            else:
+                template_ET.text = (template_ET.text or "") + text
+
+        # children list changes while extend tags replaced, hence need to make a copy
+        for child in list(template_ET):
             if child.tag == "extend":
                 path_to_template = child.attrib.get("template", "")
                 content = self._ttp_["utils"]["load_files"](path_to_template, read=True)
@@ -1485,24 +1507,30 @@ class _template_class:
                     len(extend_ET) == 1
                     and extend_ET[0].attrib.get("name") == "_anonymous_"
                 ):
-                    template_ET.text += extend_ET[0].text
-                    template_ET.remove(child)
+                    extend_ET.text = extend_ET[0].text
+                    extend_ET.remove(extend_ET[0])
                 # process extended template children to extend parent element
                 else:
+                    # top template text is not used if it has tags
+                    if top:
+                        extend_ET.text = None
                     # run filtering for extended template tags
-                    filtered_ET = self.filter_extend(
-                        extend_template=extend_ET, extend_tag=child, top=top
+                    extend_ET[:] = list(
+                        self.filter_extend(
+                            extend_template=extend_ET, extend_tag=child, top=top
+                        )
                     )
-                    # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=filtered_ET, top=False)
-                    # save extended elements as parent children
-                    template_ET[index : index + 1] = filtered_ET
+                    # handle extend tags of extended template
+                    self.replace_extend_tags(extend_ET, top)
+                # insert extended elements and text in place of extend tag
+                index = list(template_ET).index(child)
+                template_ET.remove(child)
+                add_text(index, extend_ET.text)
+                template_ET[index:index] = list(extend_ET)
+                add_text(index + len(extend_ET), child.tail)
             # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
-                self.handle_extend(template_ET=child, top=False)
-
-        if top:
-            return ET.tostring(template_ET).decode()
+            elif child.tag in ["g", "grp", "group"]:
+                self.replace_extend_tags(child, top=False)
 
     def construct_etree(self, template_text):
         """
-- 
2.43.0


From d83df67318f5af8cae2468f1fab78af31aea8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 42/44] fix: include attribute: missing or unreadable ini file
 is no longer ignored, path of missing file is not loaded as its content

---
 ttp/utils/loaders.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index a789350..50b3054 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -137,9 +137,23 @@ def load_text(text_data, include=None, **kwargs):
     return text_data
 
 
-def _get_include_data(text_data, include):
+def _load_include_files(include):
+    """
+    Helper function to read files given in include attribute
+    """
     files = load_files(path=include, extensions=[], filters=[], read=True)
-    for datum in files:
+    # load_files returns path itself as a text if nothing found under it
+    if files == [("text_data", include)]:
+        raise FileNotFoundError(
+            "ttp_utils.load_struct: failed to load include content at path: {}".format(
+                include
+            )
+        )
+    return files
+
+
+def _get_include_data(text_data, include):
+    for datum in _load_include_files(include):
         text_data += "\n" + datum[1]
     return text_data
 
@@ -153,14 +167,13 @@ def load_ini(text_data, include=None, **kwargs):
         cfgparser.optionxform = str
         # read from ini files first
         if include:
-            files = load_files(path=include, extensions=[], filters=[], read=False)
-            for datum in files:
+            for datum in _load_include_files(include):
                 try:
-                    cfgparser.read(datum[1])
+                    cfgparser.read_string(datum[1])
                 except Exception:
                     log.error(
                         "ttp_utils.load_struct: Pythom3, Unable to load ini formatted data\n'{}'".format(
-                            text_data
+                            datum[1]
                         )
                     )
         # read from tag text next to make it more specific:
-- 
2.43.0


From 0d70d3efde46c3a13d2442c77c3798ea58963376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 43/44] fix: a directory of templates is loaded whole or not at
 all

---
 ttp/ttp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index eb9dbdb..bc692e2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -424,6 +424,8 @@ class ttp:
         log.debug("ttp.add_template - loading template '{}'".format(template_name))
         # get a list of [(type, text,)] tuples or empty list []
         items = self._ttp_["utils"]["load_files"](path=template, read=True)
+        # add templates only if all of them loaded
+        templates = []
         for i in items:
             template_obj = _template_class(
                 template_text=i[1],
@@ -435,9 +437,10 @@ class ttp:
                 _ttp_=self._ttp_,
             )
             # if not template_obj.templates - no 'template' tags in template
-            self._templates += (
+            templates += (
                 template_obj.templates if template_obj.templates else [template_obj]
             )
+        self._templates += templates
 
     def add_lookup(self, name, text_data="", include=None, load="python", key=None):
         """Method to add lookup table data to all templates loaded so far. Lookup is a
-- 
2.43.0


From cb6c652c7f9cde277bbcf747266726a0a5cb7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:03 +0000
Subject: [PATCH 44/44] fix: macro defined in extended template is applied by
 extend tags of that template, was silently ignored

---
 ttp/ttp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index bc692e2..f68008b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1523,6 +1523,10 @@ class _template_class:
                             extend_template=extend_ET, extend_tag=child, top=top
                         )
                     )
+                    # load macro functions for extend tags that follow
+                    for item in extend_ET:
+                        if top and item.tag == "macro":
+                            self.parse_macro(item)
                     # handle extend tags of extended template
                     self.replace_extend_tags(extend_ET, top)
                 # insert extended elements and text in place of extend tag
-- 
2.43.0

