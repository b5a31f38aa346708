From 76a873f0a7ba8fda7205d5a2ec6193d285a3c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 01/11] fix: do not keep results of interrupted annotations
 evaluation in caches

---
 paradigm/_core/arboreal/evaluation.py | 42 ++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..fe4472b 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -235,8 +235,14 @@ def _(ast_node: ast.Assign,
         else:
             break
     else:
-        result = evaluate_expression_node(ast_node.value, module_path,
-                                          parent_path, parent_namespace)
+        try:
+            result = evaluate_expression_node(ast_node.value, module_path,
+                                              parent_path, parent_namespace)
+        except BaseException:
+            # placeholders should not outlive interrupted evaluation
+            for target_path in targets_paths:
+                cache.pop(target_path, None)
+            raise
     for target_path in targets_paths:
         cache[target_path] = result
     return result
@@ -316,11 +322,16 @@ def evaluate_qualified_path(
                         module_name
                 )
                 namespace = module.__dict__
-                for name in stubs.definitions[module_path].keys():
-                    namespace[name] = parent_namespace[name] = (
-                        evaluate_qualified_path(module_path, (name,),
-                                                parent_namespace)
-                    )
+                try:
+                    for name in stubs.definitions[module_path].keys():
+                        namespace[name] = parent_namespace[name] = (
+                            evaluate_qualified_path(module_path, (name,),
+                                                    parent_namespace)
+                        )
+                except BaseException:
+                    # incomplete module should not be reused
+                    modules_cache.pop(module_path, None)
+                    raise
                 return module
     else:
         try:
@@ -420,12 +431,17 @@ def evaluate_qualified_path(
                 )
         )
         if annotations_nodes:
-            result.__annotations__.update({
-                name: evaluate_expression_node(annotation_node,
-                                               module_path, object_path,
-                                               parent_namespace)
-                for name, annotation_node in annotations_nodes.items()
-            })
+            try:
+                result.__annotations__.update({
+                    name: evaluate_expression_node(annotation_node,
+                                                   module_path, object_path,
+                                                   parent_namespace)
+                    for name, annotation_node in annotations_nodes.items()
+                })
+            except BaseException:
+                # incomplete class should not be reused
+                objects_cache.pop((module_path, object_path), None)
+                raise
         globals()[catalog.path_to_string(object_path)] = result
         return result
 
-- 
2.43.0


From e562254f76a0cf66dccb9fc22d6ecbdbefdaa56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 02/11] fix: serialize signatures extraction between threads
 and forks

---
 paradigm/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/paradigm/base.py b/paradigm/base.py
index 5484b74..6eda29d 100644
--- a/paradigm/base.py
+++ b/paradigm/base.py
@@ -1,3 +1,5 @@
+import os as _os
+import threading as _threading
 import typing as _t
 
 from ._core import (models as _models,
@@ -9,8 +11,18 @@ ParameterKind = _models.ParameterKind
 PlainSignature = _models.PlainSignature
 RequiredParameter = _models.RequiredParameter
 
+# evaluation of annotations relies on caches shared by the whole process
+_evaluation_lock = _threading.RLock()
+
+if hasattr(_os, 'register_at_fork'):
+    # children should not inherit results of unfinished evaluations
+    _os.register_at_fork(before=_evaluation_lock.acquire,
+                         after_in_child=_evaluation_lock.release,
+                         after_in_parent=_evaluation_lock.release)
+
 
 def signature_from_callable(
         _callable: _t.Callable[..., _t.Any]
 ) -> _t.Union[OverloadedSignature, PlainSignature]:
-    return _signatures.from_callable(_callable)
+    with _evaluation_lock:
+        return _signatures.from_callable(_callable)
-- 
2.43.0


From 40a65a239f2b37dd9f6bef30eae816f69cfde489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 03/11] fix: do not modify bases of generic stubs classes while
 specializing them

Specialization replaced type variables in the shared base node itself,
so superclasses recorded later (and from other specializations)
depended on the order in which classes were processed.
---
 paradigm/_core/stubs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..17eb4e9 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -814,7 +814,7 @@ if _reload_cache:
                     base_base_module_path: _catalog.Path
                     base_base_object_path: _catalog.Path
                     if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
+                        base_base_node = specialize(_deepcopy(generic_base))
                         base_base_name = _serialization.to_identifier(
                                 base_base_node
                         )
-- 
2.43.0


From 0ba37ed2124341fdefde8786e2eca3d12e3f3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 04/11] fix: process standard library modules in a fixed order

Order of the modules affects contents of caches,
but depended on hash randomization and order of files in directories.
---
 paradigm/_core/sources.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index afb07ec..5fd97d6 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -77,7 +77,9 @@ def _relative_file_path_to_module_path(path: Path) -> catalog.Path:
 
 
 _stubs_cache = _to_stubs_cache()
-stubs_stdlib_modules_paths = set(_stubs_cache.keys())
+# order of modules affects results,
+# so it should not depend on hashes or order of files in directories
+stubs_stdlib_modules_paths = sorted(_stubs_cache.keys())
 _sources_directories = {
     Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib'))
 }
@@ -118,8 +120,8 @@ def _is_valid_module_path(module_path: catalog.Path) -> bool:
 stdlib_modules_paths = dict.fromkeys(
         chain([catalog.path_from_string(module_name)
                for module_name in sys.builtin_module_names],
-              [module_path
-               for path in _sources_directories
-               for module_path in _to_modules_paths(path)
-               if _is_valid_module_path(module_path)])
+              sorted(module_path
+                     for path in _sources_directories
+                     for module_path in _to_modules_paths(path)
+                     if _is_valid_module_path(module_path)))
 ).keys()
-- 
2.43.0


From 80149359e783439eeaf46b0548c6175fab26614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 05/11] fix: report death of helper process & do not replace
 main module for long

Caller hanged forever when the process had exited without result
(or its result or error were not picklable),
and other threads & callers could see or be left with wrong main module.
---
 paradigm/_core/execution.py | 111 ++++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 31 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..904970e 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -1,9 +1,21 @@
 import inspect
 import multiprocessing
+import os
+import pickle
 import sys
 import threading
+import traceback
 import typing as t
-from multiprocessing.queues import SimpleQueue
+from multiprocessing.connection import Connection
+from multiprocessing.reduction import ForkingPickler
+
+# start of a process depends on the state shared by the whole process
+_start_lock = threading.RLock()
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(before=_start_lock.acquire,
+                        after_in_child=_start_lock.release,
+                        after_in_parent=_start_lock.release)
 
 
 def is_main_process() -> bool:
@@ -13,43 +25,80 @@ def is_main_process() -> bool:
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    with threading.Lock():
-        caller_frame = inspect.stack()[1].frame
-        caller_module = inspect.getmodule(caller_frame)
-        assert caller_module is not None
-        main_module = sys.modules.get('__main__')
+    caller_frame = inspect.stack()[1].frame
+    caller_module = inspect.getmodule(caller_frame)
+    assert caller_module is not None
+    context = multiprocessing.get_context()
+    with _start_lock:
+        # no other process should inherit the sending end,
+        # otherwise we won't be notified about death of the process
+        receiver, sender = context.Pipe(duplex=False)
         try:
-            sys.modules['__main__'] = caller_module
-            context = multiprocessing.get_context()
-            queue = context.SimpleQueue()
             process = context.Process(
-                    target=_put_result_in_queue,
+                    target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
+                    args=(receiver, sender, function, *args),
                     kwargs=kwargs
             )
-            process.start()
-            result, error = queue.get()
-            process.join()
-            if error is not None:
-                raise error
-            return result
+            main_module = sys.modules.get('__main__')
+            try:
+                sys.modules['__main__'] = caller_module
+                process.start()
+            finally:
+                if main_module is None:
+                    sys.modules.pop('__main__', None)
+                else:
+                    sys.modules['__main__'] = main_module
+        except BaseException:
+            receiver.close()
+            raise
         finally:
-            if main_module is None:
-                del sys.modules['__main__']
-            else:
-                sys.modules['__main__'] = main_module
+            sender.close()
+    with receiver:
+        try:
+            try:
+                response = receiver.recv_bytes()
+            except EOFError as error:
+                process.join()
+                raise RuntimeError(f'Process "{process.name}" has exited '
+                                   f'with code {process.exitcode} '
+                                   'without result.') from error
+            process.join()
+        except BaseException:
+            process.kill()
+            process.join()
+            raise
+    result, error = pickle.loads(response)
+    if error is not None:
+        raise error
+    return result
+
 
+def _send_result(receiver: Connection,
+                 sender: Connection,
+                 function: t.Callable[..., t.Any],
+                 *args: t.Any,
+                 **kwargs: t.Any) -> None:
+    receiver.close()
+    with sender:
+        try:
+            response = ForkingPickler.dumps((function(*args, **kwargs), None))
+        except Exception as error:
+            sender.send_bytes(_error_to_response(error))
+            raise error
+        else:
+            sender.send_bytes(response)
 
-def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
-                         function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+
+def _error_to_response(error: Exception) -> t.Any:
     try:
-        result = function(*args, **kwargs)
-    except Exception as error:
-        queue.put((None, error))
-        raise error
-    else:
-        queue.put((result, None))
+        result = ForkingPickler.dumps((None, error))
+        pickle.loads(result)
+    except Exception:
+        result = ForkingPickler.dumps(
+                (None, RuntimeError(''.join(traceback.format_exception(
+                        type(error), error, error.__traceback__
+                ))))
+        )
+    return result
-- 
2.43.0


From 7556e166ad5a8f63973f9170faf0a55fcd595137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 06/11] fix: save caches atomically & always recompile them

Other processes could load a partially written or mixed cache,
and byte code of the previous cache was kept
if the new one had the same size & modification time in seconds.
---
 paradigm/_core/caching.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/paradigm/_core/caching.py b/paradigm/_core/caching.py
index 7438f8b..ca881bc 100644
--- a/paradigm/_core/caching.py
+++ b/paradigm/_core/caching.py
@@ -1,10 +1,13 @@
+import os
 import typing as t
 import warnings
 from compileall import compile_file
+from contextlib import suppress
 from importlib import import_module
 from importlib.machinery import SOURCE_SUFFIXES
 from operator import attrgetter
 from pathlib import Path
+from uuid import uuid4
 
 import typing_extensions as te
 
@@ -23,14 +26,25 @@ def load(*names: str, path: Path) -> t.Tuple[t.Any, ...]:
 
 
 def save(*, path: Path, **values: t.Any) -> None:
+    # to not expose partially written or mixed files to other processes
+    temporary_path = path.with_name(f'{path.name}.{uuid4().hex}.tmp')
     try:
-        with path.open('w',
-                       encoding='utf-8') as file:
-            for name, value in values.items():
-                file.write(f'{name} = '
-                           + pretty.repr_from(value, 4, 0)
-                           + '\n')
+        try:
+            with temporary_path.open('x',
+                                     encoding='utf-8') as file:
+                for name, value in values.items():
+                    file.write(f'{name} = '
+                               + pretty.repr_from(value, 4, 0)
+                               + '\n')
+            os.replace(temporary_path, path)
+        except BaseException:
+            with suppress(OSError):
+                temporary_path.unlink()
+            raise
+        # modification time & size are not enough
+        # to distinguish files written during the same second
         compile_file(path,
+                     force=True,
                      quiet=2)
     except Exception as error:
         warnings.warn(f'Failed saving "{path}". '
-- 
2.43.0


From 6cadde9db96e296c492aaec0c3fc76d76e560412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 07/11] fix: do not fix default start method of processes on
 import

---
 paradigm/_core/execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 904970e..ecec2ba 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -28,7 +28,11 @@ def call_in_process(function: t.Callable[..., t.Any],
     caller_frame = inspect.stack()[1].frame
     caller_module = inspect.getmodule(caller_frame)
     assert caller_module is not None
-    context = multiprocessing.get_context()
+    # start method should not become fixed, user may set it afterwards
+    context = multiprocessing.get_context(
+            multiprocessing.get_start_method(allow_none=True)
+            or multiprocessing.get_all_start_methods()[0]
+    )
     with _start_lock:
         # no other process should inherit the sending end,
         # otherwise we won't be notified about death of the process
-- 
2.43.0


From 6e751031af27590c29b0aa1f65e4846cc161ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 08/11] fix: do not rely on name of the process to tell the
 main one

---
 paradigm/_core/execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index ecec2ba..93e6fd0 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -19,7 +19,10 @@ if hasattr(os, 'register_at_fork'):
 
 
 def is_main_process() -> bool:
-    return multiprocessing.current_process().name == 'MainProcess'
+    # name of the process is up to the user
+    return (multiprocessing.parent_process() is None
+            and not getattr(multiprocessing.current_process(), '_inheriting',
+                            False))
 
 
 def call_in_process(function: t.Callable[..., t.Any],
-- 
2.43.0


From 90d12e8014ebaa28a6c4caccc2701e2c8a39333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 09/11] fix: keep functions for parsing of stubs available to
 started process

Process started by the main one with the spawn method imports module of stubs
anew, if cache gets saved by someone else in the meantime then functions
it was started for are missing and import of the package fails.
---
 paradigm/_core/stubs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 17eb4e9..08ecf33 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -9,6 +9,7 @@ from mypy.version import __version__ as _mypy_version
 from paradigm import __version__ as _version
 from . import (caching as _caching,
                catalog as _catalog,
+               execution as _execution,
                scoping as _scoping)
 from .arboreal import conversion as _serialization
 from .arboreal.kind import NodeKind as _NodeKind
@@ -59,7 +60,9 @@ else:
             }
             for module_path, objects_kinds in _raw_nodes_kinds.items()
         }
-if _reload_cache:
+# process started by the main one to parse stubs looks for the functions here
+# even if cache has been saved by someone else in the meantime
+if _reload_cache or not _execution.is_main_process():
     import ast as _ast
     import builtins as _builtins
     from copy import deepcopy as _deepcopy
@@ -68,8 +71,7 @@ if _reload_cache:
 
     from typing_extensions import TypeGuard as _TypeGuard
 
-    from . import (execution as _execution,
-                   namespacing as _namespacing,
+    from . import (namespacing as _namespacing,
                    sources as _sources)
     from .arboreal import (construction as _construction,
                            conversion as _conversion)
@@ -972,6 +974,7 @@ if _reload_cache:
             )
 
 
+if _reload_cache:
     if _execution.is_main_process():
         (
             definitions, nodes_kinds, raw_ast_nodes, references, submodules,
-- 
2.43.0


From 815f122685d901735b344d3b8fb3757801ab5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 10/11] fix: reading of stubs does not depend on locale

Stubs are UTF-8 files, but they were decoded with the default encoding of
the user, so with non-ASCII text in them the database was wrong (and got saved)
or could not be built.
---
 paradigm/_core/arboreal/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/construction.py b/paradigm/_core/arboreal/construction.py
index 53bf41e..d3b1e0a 100644
--- a/paradigm/_core/arboreal/construction.py
+++ b/paradigm/_core/arboreal/construction.py
@@ -22,4 +22,4 @@ def from_raw(raw: RawAstNode,
 
 
 def from_source_path(path: Path) -> ast.Module:
-    return ast.parse(path.read_text())
+    return ast.parse(path.read_text(encoding='utf-8'))
-- 
2.43.0


From 1c9a038eff27fa3879eda26668875e25a5c77cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 11/11] fix: start of a process does not touch other modules of
 the program

Search of the caller's module with `inspect` loads every lazy module
of the program, fails if any of them can't be loaded
or if there is no main module.
---
 paradigm/_core/execution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 93e6fd0..eb3b907 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -1,4 +1,3 @@
-import inspect
 import multiprocessing
 import os
 import pickle
@@ -28,9 +27,8 @@ def is_main_process() -> bool:
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    caller_frame = inspect.stack()[1].frame
-    caller_module = inspect.getmodule(caller_frame)
-    assert caller_module is not None
+    # search of the module by its file would load all lazy modules
+    caller_module = sys.modules[sys._getframe(1).f_globals['__name__']]
     # start method should not become fixed, user may set it afterwards
     context = multiprocessing.get_context(
             multiprocessing.get_start_method(allow_none=True)
-- 
2.43.0

