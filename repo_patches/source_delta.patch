From d818418ca0491e2b31b2bc9bbd330b71994145bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 01/25] fix: restore stdout when an item raises while stdout is
 being logged

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From c4238a0a2887c0a08924db7ee519961f0abc725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 02/25] fix: run classes inside a section by their own section
 path

---
 pyfileconf/runner/models/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..384786a 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -168,9 +168,9 @@ class Runner(ReprMixin):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From d5cb61e7695a4b82ce9ab3f8cf2d49667042545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 03/25] fix: return the config value on attribute access of a
 config

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..2448ec5 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -54,7 +54,7 @@ class ConfigBase(dict):
 
     def __getattr__(self, attr):
         try:
-            self[attr]
+            return self[attr]
         except KeyError:
             raise AttributeError(attr)
 
-- 
2.43.0


From 58cfd344373f0b2510995b2d307a5c42c832b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 04/25] fix: determine dependencies of an update from the
 values which are actually applied

---
 pyfileconf/main.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..06e5f7c 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -382,9 +382,6 @@ class PipelineManager:
             # If any of the updates are putting an ItemView as the value, then
             # record that this config is dependent on the config referenced
             # by the ItemView
-            all_updates = {**kwargs}
-            if d_ is not None:
-                all_updates.update(d_)
             full_sp = SectionPath.join(self.name, section_path_str)
             for value in all_updates.values():
                 if is_item_view(value):
-- 
2.43.0


From 6f3c0624c5fcddbf4eefbde3594fae00a0faa257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 05/25] fix: do not raise when comparing config values without
 a single truth value

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 2448ec5..cecfb1f 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -183,7 +183,7 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return False
 
     try:
-        return val1 == val2
+        return bool(val1 == val2)
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From a7da35478a55f85458e2eb4b4794b7e9bb70a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 06/25] fix: replace the file log handler when switching log
 folders

---
 pyfileconf/logger/logger.py | 4 ++++
 pyfileconf/opts/filelog.py  | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..5e233ff 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -43,6 +43,10 @@ def add_file_handler():
     logger.addHandler(fh)
 
 
+def file_handler_is_active() -> bool:
+    return any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers)
+
+
 def remove_file_handler():
     timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
     if len(timed_handlers) != 1:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..2862084 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,10 +1,11 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, remove_file_handler
+from pyfileconf.logger.logger import add_file_handler, file_handler_is_active, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
+    if log_folder is None or file_handler_is_active():
+        # Either disabling file logging or switching to a different folder
+        remove_file_handler()
     if log_folder is not None:
         add_file_handler()
-    else:
-        remove_file_handler()
-- 
2.43.0


From 9ca669729d323082fb4f98331acb4a8f8e3029e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 07/25] fix: reset the attribute lookup path when a looked up
 item does not exist

---
 pyfileconf/runner/models/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 384786a..794b142 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -49,7 +49,7 @@ class Runner(ReprMixin):
         self._full_getattr += item
         try:
             func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
+        except Exception as e:
             self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
             raise e
 
-- 
2.43.0


From c35d4175d9eb469d90b04d41453c6c47110b0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 08/25] fix: track the last applied case even if running it
 raises

---
 pyfileconf/iterate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..8538234 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -131,9 +131,8 @@ class IterativeRunner:
     def _run_case(self, case: Tuple[Dict[str, Any], ...]) -> Any:
         case_with_defaults = self._fill_case_with_defaults(case)
         manager.plm.hook.pyfileconf_iter_update_for_case(case=case_with_defaults, runner=self)
-        result = self._run()
         self.last_case = case_with_defaults
-        return result
+        return self._run()
 
     def _run(self) -> Any:
         from pyfileconf.main import PipelineManager
-- 
2.43.0


From 0c5cbc94912bea3dae464ca1a35e81f48c28df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 09/25] fix: a section path cannot end with a longer section
 path

---
 pyfileconf/sectionpath/sectionpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/sectionpath/sectionpath.py b/pyfileconf/sectionpath/sectionpath.py
index 81a31d7..5e747e0 100644
--- a/pyfileconf/sectionpath/sectionpath.py
+++ b/pyfileconf/sectionpath/sectionpath.py
@@ -100,6 +100,8 @@ class SectionPath(ReprMixin):
 
     def endswith(self, sp: 'SectionPath'):
         num_to_match = len(sp)
+        if num_to_match > len(self):
+            return False
         match_parts = self[-num_to_match:]
         for i, part in enumerate(match_parts):
             if part != sp[i]:
-- 
2.43.0


From afa951377b4397f379734d5b43aa18fbbda3e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 10/25] fix: handle required keyword-only arguments

---
 pyfileconf/imports/logic/load/func.py | 5 ++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..ebaac9e 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -20,10 +20,9 @@ def function_args_as_dict(func: Callable):
         out_dict.update({arg: default})
 
     # Handle kwargs
+    kwonly_defaults = args.kwonlydefaults or {}
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        out_dict.update({kwarg: kwonly_defaults.get(kwarg)})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..f90a871 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # Keyword-only argument without a default value
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From 70c1343e1434ab63b0c0b5434377390b8d0f24f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 11/25] fix: pass the full updates to all batch update hooks
 when updates is a generator

---
 pyfileconf/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyfileconf/batch.py b/pyfileconf/batch.py
index aaf1a95..ef3a5e3 100644
--- a/pyfileconf/batch.py
+++ b/pyfileconf/batch.py
@@ -37,6 +37,7 @@ class BatchUpdater:
         """
         from pyfileconf.main import PipelineManager
 
+        updates = list(updates)  # may be a one-time iterable, and is used by multiple hooks
         updates_lol = manager.plm.hook.pyfileconf_pre_update_batch(
             pm=self, updates=updates
         )
-- 
2.43.0


From b42b2973f36896d469b51b187c82a152f863999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 12/25] fix: apply updates of settings which are not yet in the
 config

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index cecfb1f..bca019e 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -149,7 +149,7 @@ class ConfigBase(dict):
         all_updates = {**E, **F}
         for key, value in all_updates.items():
             if key not in self:
-                continue
+                return True
             orig_value = self[key]
             if not _values_are_equal(orig_value, value):
                 return True
-- 
2.43.0


From e956b56519c0c65cf14e7ca1ea396bb0be6f5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 13/25] fix: record a dependency also when the accessed item
 was already loaded

---
 pyfileconf/runner/models/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 794b142..7d84c34 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -298,6 +298,7 @@ class Runner(ReprMixin):
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
@@ -311,6 +312,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
-- 
2.43.0


From 861c34a6f9ff11c73c6adccac439e9958d45a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 14/25] fix: save a config to the requested file rather than
 the file it was loaded from

---
 pyfileconf/basemodels/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index bca019e..10cc891 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -87,6 +87,7 @@ class ConfigBase(dict):
             # In case this is a new filepath for the same config, copy old file contents for use in new filepath
             output_file = deepcopy(self._file)
             output_file.filepath = filepath
+            output_file.interface.filepath = filepath
 
         if os.path.exists(filepath):
             output_file.load() # load any existing config saved in the file, for preserving of user-saved inputs
-- 
2.43.0


From 75de9a6366905d844b1ce124f75f8a848a5d7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 15/25] fix: keep body lines and imports of user config files
 stable when saving

---
 pyfileconf/config/logic/load.py         | 23 +++++++++++++++++++----
 pyfileconf/io/file/interfaces/config.py |  2 +-
 pyfileconf/io/file/load/lazy/config.py  | 13 +++++++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 1e025df..0170ef6 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -1,4 +1,5 @@
-from typing import Tuple, List, Union, Sequence
+import ast
+from typing import Tuple, List, Union, Sequence, Set
 from copy import deepcopy
 
 ListOfStrs = List[str]
@@ -11,8 +12,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
     #
     # Imports can currently only be read from the top of the file
 
-    # TODO [#3]: deal with use of import other than the word import
-
+    import_line_indices = _get_indices_of_beginning_import_lines(lines)
     import_section = []
     assignment_section = []
     # We can have three cases for the following two booleans:
@@ -28,7 +28,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
         # Handle import section and add whitespace below import section
         if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
+            if i in import_line_indices or _is_whitespace_line(line):
                 import_section.append(line)
             else:
                 in_import_section = False  # no longer dealing with imports, must have assignment line
@@ -42,6 +42,21 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
     return import_section, assignment_section
 
+def _get_indices_of_beginning_import_lines(lines: ListOfStrs) -> Set[int]:
+    """
+    Gets the indices of all the lines which are part of the import statements coming before anything
+    else in the file. Other lines which contain the word import are not included.
+    """
+    nodes = ast.parse('\n'.join(line.strip('\n') for line in lines)).body
+    indices: Set[int] = set()
+    for i, node in enumerate(nodes):
+        if not isinstance(node, (ast.Import, ast.ImportFrom)):
+            break
+        if i + 1 < len(nodes) and nodes[i + 1].lineno <= node.end_lineno:  # type: ignore
+            break  # there is another statement on the same line, so cannot separate it
+        indices.update(range(node.lineno - 1, node.end_lineno))  # type: ignore
+    return indices
+
 def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
 
     # handle whitespace lines
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..7c04043 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -11,7 +11,7 @@ class ConfigFileInterface(ConfigFileLoader):
         file_str_obj = ConfigFileStr(
             config,
             existing_assigns=self.assigns,
-            existing_imports=self.imports,
+            existing_imports=self.beginning_imports,
             existing_body=self.assignment_body
         )
 
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..62425dd 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,7 +1,10 @@
+import ast
 from typing import List, Tuple
 
+from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
 from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
+from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
 from pyfileconf.pmcontext.actions import PyfileconfActions
 from pyfileconf.pmcontext.tracing import StackTracker
 
@@ -25,6 +28,14 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
     def assignment_body(self) -> List[str]:
         return self._try_getattr_else_call_func('_assignment_body', self.load)
 
+    @property
+    def beginning_imports(self) -> ImportStatementContainer:
+        """
+        The imports which come before the assignment body. In contrast to imports, does
+        not include the imports which are within the assignment body.
+        """
+        return self._try_getattr_else_call_func('_beginning_imports', self.load)
+
     def _file_body_to_assignment_body(self):
         """
         Warning: Assumes that imports come first, then an assignment section. May have
@@ -35,6 +46,8 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
             self._assignment_body = assignment_lines
+            self._beginning_imports = extract_imports_from_ast(ast.parse('\n'.join(import_lines)))
         else:
             self._assignment_body = []
+            self._beginning_imports = ImportStatementContainer([])
 
-- 
2.43.0


From f816434856a36fbdf968767853354a9447815391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 16/25] fix: accept defaults which are defined in the module of
 the function

---
 pyfileconf/io/func/load/extractimp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..2af3cfc 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -2,6 +2,7 @@ from typing import List, cast
 import ast
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
@@ -29,7 +30,10 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     # Handle names which are imported into this file
     for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
+        try:
+            import_or_none = imports.get_import_for_module_or_obj_name(name)
+        except NoImportMatchingNameException:
+            continue  # not imported, was assigned in the module or is checked below
         if import_or_none is not None:
             out_imports.append(import_or_none)
 
-- 
2.43.0


From 8a12d899b25f173cb70bd388918c007f7b357f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:38 +0000
Subject: [PATCH 17/25] fix: write back all the names under which an import
 statement makes the same object available

---
 .../imports/models/statements/importbase.py   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..753b5df 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -23,10 +23,24 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
             return rename_items # no saved renames, just return original attrs
 
         renamed_items = []
-        for item in rename_items:
-            if item in self.renames:
-                renamed_items.append(str(self.renames[item]))
-            else:
+        for item in dict.fromkeys(rename_items):
+            # The same item may be imported multiple times under different names
+            renames = [str(rename) for rename in self.renames if rename.item == item]
+            if item in self._not_renamed:
                 renamed_items.append(item)
+            renamed_items.extend(renames)
 
         return renamed_items
+
+    @property
+    def _not_renamed(self) -> List[str]:
+        """
+        The items which are imported under their own name. With from this import that as other, this does not
+        include that, as there is nothing called that after the import.
+        """
+        items = list(getattr(self, self.rename_attr))
+        for rename in self.renames or []:
+            if rename.item in items:
+                items.remove(rename.item)
+
+        return items
-- 
2.43.0


From f0ffbfdc41e0d2b8144e48139021d1a11e9c8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:38 +0000
Subject: [PATCH 18/25] fix: add an import to a file which has imported the
 same object under another name only

---
 pyfileconf/imports/models/statements/container.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..8f4d6b8 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -37,18 +37,18 @@ class ImportStatementContainer(Container, ReprMixin):
             # e.g. item is: import this
             # and import statement in collection is: import this, that
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
-                matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                # compare including the renames, import this as that does not make this available
+                matching_modules = all(mod in imp_or_comment._renamed for mod in item._renamed)
+                if matching_modules:
                     return True
 
             # e.g. item is: from this import that
             # and import statement in collection is: from this import that, another
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
-                matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                # compare including the renames, from this import that as other does not make that available
+                matching_objs = all(obj in imp_or_comment._renamed for obj in item._renamed)
+                if matching_module and matching_objs:
                     return True
 
 
-- 
2.43.0


From 2c82c05b0306a9d9ddb73fbfad13f6e84b5c2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:38 +0000
Subject: [PATCH 19/25] fix: do not take an object imported under another name
 for one which is imported under its own name

---
 pyfileconf/imports/models/statements/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 8f4d6b8..9faca9c 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -98,7 +98,7 @@ class ImportStatementContainer(Container, ReprMixin):
         found_import = False
         for imp in self:
             if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
+                if name in imp._not_renamed:
                     # match on original module name
                     # set up for creating a new import
                     found_import = True
@@ -118,7 +118,7 @@ class ImportStatementContainer(Container, ReprMixin):
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
             elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
+                if name in imp._not_renamed:
                     # match on original object name
                     # set up for creating a new import
                     found_import = True
-- 
2.43.0


From baaeb1041cf2469bc7e1410a640fb186ce905fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:29 +0000
Subject: [PATCH 20/25] fix: allow checking for an object import when there is
 an import of multiple modules

---
 pyfileconf/imports/models/statements/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 9faca9c..14fa2bd 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -23,7 +23,8 @@ class ImportStatementContainer(Container, ReprMixin):
 
     def __contains__(self, item: AnyImportStatementOrComment):
         for imp_or_comment in self:
-            if item == imp_or_comment:
+            # only compare items of the same type, an import of multiple modules does not have a single module
+            if isinstance(imp_or_comment, type(item)) and item == imp_or_comment:
                 return True
 
             if not isinstance(item, (ObjectImportStatement, ModuleImportStatement)) or \
-- 
2.43.0


From b50cf72bba08e2b810df650875d1283b2fab28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:37 +0000
Subject: [PATCH 21/25] fix: find the import of a name which is imported with a
 submodule

---
 pyfileconf/imports/models/statements/container.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 14fa2bd..d5ab558 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -115,6 +115,11 @@ class ImportStatementContainer(Container, ReprMixin):
                     )
                     # grab original module matching this rename
                     modules = [renames.reverse_name_map[name]]
+                elif self._submodules_imported_for(name):
+                    # import this.that makes this available
+                    found_import = True
+                    renames = None
+                    modules = self._submodules_imported_for(name)
                 if found_import:
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
@@ -140,6 +145,12 @@ class ImportStatementContainer(Container, ReprMixin):
                     return ObjectImportStatement(objs, module=imp.module, renames=renames)
         raise NoImportMatchingNameException(f'could not find name {name} in {self}')
 
+    def _submodules_imported_for(self, name: str) -> List[str]:
+        return [
+            mod for imp in self if isinstance(imp, ModuleImportStatement)
+            for mod in imp._not_renamed if mod.startswith(name + '.')
+        ]
+
     @property
     def imported_names(self) -> List[str]:
         imported_names: List[str] = []
-- 
2.43.0


From b9fb39ab11580178d0d37bfadfb01fad709a935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 22/25] fix: do not add the changes of plugins to the
 dictionary which was passed to update

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 06e5f7c..6138e5a 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -335,7 +335,7 @@ class PipelineManager:
         new_updates_dict: Dict[str, Any] = {k: v for d in new_updates_list for k, v in d.items()}
         if new_updates_dict:
             if d_ is not None:
-                d_.update(new_updates_dict)
+                d_ = {**d_, **new_updates_dict}
             kwargs.update(new_updates_dict)
 
         self._update(d_, section_path_str=section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
-- 
2.43.0


From 7dd073d69077d9cb7faa9369a288775e6bc0f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:17 +0000
Subject: [PATCH 23/25] fix: run the items which plugins put into the list
 passed to run

---
 pyfileconf/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 6138e5a..8bb9a81 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -142,12 +142,13 @@ class PipelineManager:
         Returns: result or list of results
 
         """
-        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
-            section_path_str_or_list
-        )
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
+        # Plugins may have modified the list in place, so convert only now
+        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
+            section_path_str_or_list
+        )
         # Will be converted into list always
         str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
             str_or_list_only, additional_items
-- 
2.43.0


From 36eabd02778696c8c659f67e8643b403cec41c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 24/25] fix: run lists and item views which plugins add to a
 run

---
 pyfileconf/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 8bb9a81..21adefc 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -26,6 +26,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
+    combine_items_into_list_whether_they_are_lists_or_not, \
     combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
@@ -149,9 +150,15 @@ class PipelineManager:
         str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
             section_path_str_or_list
         )
+        # Each plugin may return a single section path or view or a list of them
+        additional_strs: List[str] = []
+        for items in additional_items:
+            additional_strs = combine_items_into_list_whether_they_are_lists_or_not(
+                additional_strs, self._convert_list_or_single_item_view_or_str_to_strs(items)
+            )
         # Will be converted into list always
         str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-            str_or_list_only, additional_items
+            str_or_list_only, additional_strs
         )
 
         if options.log_stdout:
-- 
2.43.0


From 75c48ca62bbb47b57a1ec9047accd704fbe67dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:43 +0000
Subject: [PATCH 25/25] fix: pass config entries as dictionaries, names of
 entries can match names of arguments

---
 pyfileconf/basemodels/config.py     |  2 +-
 pyfileconf/config/models/manager.py | 10 +++++-----
 pyfileconf/runner/models/runner.py  |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 10cc891..f000ed3 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -131,7 +131,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..2c6f5f8 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -58,11 +58,11 @@ class ConfigManager(ReprMixin):
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
-        would_update = self._determine_and_track_if_config_would_be_updated(
-            config_obj, section_path_str, d_, **kwargs
-        )
+        # Names of config entries may match names of arguments, so must be passed on as a dictionary
+        updates = {**(d_ or {}), **kwargs}
+        would_update = self._determine_and_track_if_config_would_be_updated(config_obj, section_path_str, updates)
         if would_update:
-            config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+            config_obj.update(updates, pyfileconf_persist=pyfileconf_persist)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
@@ -192,7 +192,7 @@ class ConfigManager(ReprMixin):
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         if would_update:
             self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 7d84c34..0453416 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -382,7 +382,7 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+            self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -392,7 +392,7 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+            self._config.track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
-- 
2.43.0

