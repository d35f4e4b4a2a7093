From 415426467e87e16e051a3b3c969f61e132b3469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 01/51] fix: a step that raises an exception fails the build
 instead of hanging it

---
 licant/solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/licant/solver.py b/licant/solver.py
index 90debb6..3411fbc 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,6 +1,7 @@
 import asyncio
 from licant.util import invert_depends_dictionary, red
 import contextlib
+import traceback
 
 
 class DependableTarget:
@@ -123,7 +124,11 @@ class TaskInvoker:
                 if self.trace:
                     print(f"[Trace] thread:{no} do task: {task.name()}")
 
-                result = await task.doit()
+                try:
+                    result = await task.doit()
+                except Exception:
+                    traceback.print_exc()
+                    result = False
                 self.queue.task_done()
 
                 if (self.error_while_execution):
-- 
2.43.0


From 179c40d8db028d75c7c79dc9d53b25b44a94ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 02/51] fix: recurse_update_get_args works when no thread count
 was set on the core

---
 licant/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/licant/core.py b/licant/core.py
index 79fd5e6..c8345bb 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -365,6 +365,9 @@ class UpdatableTarget(Target):
         if "threads" in self.core.runtime:
             threads = self.core.runtime["threads"]
 
+        if threads is None:
+            threads = 1
+
         depset = self.core.depends_as_set(self, incroot=True)
 
         # It is set! It is not list because we need to remove repeated elements
-- 
2.43.0


From b734ba23b4e19b2075cd0d7d3c69862731ab9872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 03/51] fix: commands with large or non-UTF-8 output no longer
 block or break the build

---
 licant/make.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index c312d6d..62f8d25 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -45,13 +45,12 @@ def do_execute(target, rule, msgfield, prefix=None):
 
     proc = subprocess.Popen(
         rule, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-    stdout = proc.stdout
-    stderr = proc.stderr
-    ret = proc.wait()
+    stdout, stderr = proc.communicate()
+    ret = proc.returncode
 
-    sprint(stdout.read().decode("utf-8"), end="")
+    sprint(stdout.decode("utf-8", errors="replace"), end="")
     sys.stdout.flush()
-    sprint(stderr.read().decode("utf-8"), end="")
+    sprint(stderr.decode("utf-8", errors="replace"), end="")
     sys.stderr.flush()
 
     if target.is_file():
-- 
2.43.0


From 7cac490fb88a74be2d458cab52de379afe5ad29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 04/51] fix: looking a target up by another spelling does not
 pin the name to it

---
 licant/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index c8345bb..83b5ff6 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -88,12 +88,7 @@ class Core:
         if tgt in self._targets:
             return True
 
-        if licant.util.canonical_path(tgt) in self._targets:
-            # access optimization by lazy technique
-            self._targets[tgt] = self._targets[licant.util.canonical_path(tgt)]
-            return True
-
-        return False
+        return licant.util.canonical_path(tgt) in self._targets
 
     def depends_as_set_impl(self, tgt, accum):
         target = self.get(str(tgt))
-- 
2.43.0


From 87ec11f64709300da7b3c48bcc9b192b7ac59eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 05/51] fix: command line words after an action are passed to
 it as its arguments

---
 licant/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index 4501b00..fb95458 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -112,13 +112,13 @@ def __cliexecute(args, default, core):
                 )
             )
 
-        return target.invoke(act, *args[2:], critical=True)
+        return target.invoke(act, args=args[2:], critical=True)
 
     # Try look up fnd in actions of default_target
     if default is not None:
         dtarget = core.get(default)
         if dtarget.hasaction(fnd):
-            return dtarget.invoke(fnd, *args[1:], critical=True)
+            return dtarget.invoke(fnd, args=args[1:], critical=True)
 
     # Can't look fnd.
     licant.util.error(
-- 
2.43.0


From 999230ea90574c93b40a79d4195a340eb146ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 06/51] fix: a failed build ends the command line with a
 non-zero exit status

---
 licant/cli.py  | 5 ++++-
 licant/core.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index fb95458..a00072f 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -150,9 +150,12 @@ def cliexecute(
         print("PRINT RUNTIME:", core.runtime)
 
     try:
-        __cliexecute(args, default=default, core=core)
+        result = __cliexecute(args, default=default, core=core)
     except KeyboardInterrupt:
         licant.util.error("interrupted by user")
 
+    if result is False:
+        licant.util.error("build failed")
+
     if colorwrap:
         print(licant.util.yellow("[finish]"))
diff --git a/licant/core.py b/licant/core.py
index 83b5ff6..f70f836 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -418,7 +418,7 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        self.recurse_update(threads=threads)
+        return self.recurse_update(threads=threads)
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From 9c551adad9d536dcc614002aa059f6b74b43a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 07/51] fix: file targets may depend on routines and updatable
 targets

---
 licant/core.py | 11 +++++++++++
 licant/make.py | 13 +------------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index f70f836..b00b400 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -328,6 +328,17 @@ class UpdatableTarget(Target):
     def update(self, *args, **kwargs):
         return True
 
+    def mtime(self):
+        """The latest modification time among dependencies"""
+        maxtime = 0
+        for d in self.deps:
+            dtgt = self.core.get(d)
+            mtime = dtgt.mtime()
+            if mtime is not None and mtime > maxtime:
+                maxtime = mtime
+
+        return maxtime
+
     def recursive_update_needed_request(self):
         if self.need_update is not None:
             return self.need_update
diff --git a/licant/make.py b/licant/make.py
index 62f8d25..4515004 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -101,17 +101,6 @@ class MakeFileTarget(UpdatableTarget):
     def is_file(self):
         return True
 
-    def mtime(self):
-        """fileset mtime"""
-        maxtime = 0
-        for d in self.deps:
-            dtgt = self.core.get(d)
-            mtime = dtgt.mtime()
-            if mtime is not None and mtime > maxtime:
-                maxtime = mtime
-
-        return maxtime
-
 
 class FileTarget(MakeFileTarget):
     __actions__ = MakeFileTarget.__actions__.union(
@@ -167,7 +156,7 @@ class FileTarget(MakeFileTarget):
         maxtime = 0
         for dep in self.get_deplist():
             depmtime = dep.mtime()
-            if dep.is_file() and depmtime > maxtime:
+            if depmtime > maxtime:
                 maxtime = depmtime
 
         if maxtime > self.mtime():
-- 
2.43.0


From 7cd9cbb79231a7a3e36caad078958ec9a137f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:38 +0000
Subject: [PATCH 08/51] fix: invoke_routine and update are actions of a routine

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index b00b400..711c357 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -406,7 +406,7 @@ class UpdatableTarget(Target):
 
 class Routine(UpdatableTarget):
     __actions__ = {"recurse_update",
-                   "recurse_update_get_args", "invoke_routine" "update", "actlist"}
+                   "recurse_update_get_args", "invoke_routine", "update", "actlist"}
 
     def __init__(self,
                  func,
-- 
2.43.0


From 977603182360516b5bbc0d3fe9988c18ab68f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:51 +0000
Subject: [PATCH 09/51] fix: a directory created meanwhile by someone else does
 not fail the build

---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 4515004..258d3c7 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -75,7 +75,7 @@ class DirectoryKeeper():
     def __call__(self, target, **kwargs):
         print("MAKEDIRS", target.tgt)
         if not target.exists():
-            os.makedirs(target.tgt)
+            os.makedirs(target.tgt, exist_ok=True)
             target.update_info()
 
 
-- 
2.43.0


From 7543f0b4db6048d275314337b4a2bc3a2252a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 10/51] fix: copy and clean quote file names for the shell

---
 licant/make.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 258d3c7..03e9e21 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -9,6 +9,7 @@ from licant.util import purple, quite
 import threading
 import os
 import time
+import shlex
 import subprocess
 import fcntl
 import sys
@@ -124,6 +125,7 @@ class FileTarget(MakeFileTarget):
         self.isfile = True
         self.force = force
         self.clrmsg = "DELETE {tgt}"
+        self.qtgt = shlex.quote(self.tgt)
 
     def update_info(self):
         fcache.update_info(self.tgt)
@@ -147,7 +149,7 @@ class FileTarget(MakeFileTarget):
 
     def clr(self):
         """Delete this file."""
-        do_execute(self, "rm -f {tgt}", "clrmsg")
+        do_execute(self, "rm -f {qtgt}", "clrmsg")
 
     def internal_update_if(self):
         if self.force or not self.is_exist():
@@ -236,8 +238,9 @@ def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
     core.add(
         FileTarget(
             tgt=tgt,
-            build=Executor("cp {src} {tgt}"),
+            build=Executor("cp -- {qsrc} {qtgt}"),
             src=src,
+            qsrc=shlex.quote(src),
             deps=[src] + adddeps,
             message=message,
         )
@@ -323,8 +326,9 @@ class MakeCore(Core):
         self.source(src)
         return self.add(FileTarget(
             tgt=dst,
-            build=Executor("cp {src} {tgt}"),
+            build=Executor("cp -- {qsrc} {qtgt}"),
             src=src,
+            qsrc=shlex.quote(src),
             deps=[src] + dirdeps + deps,
             use_dirkeep=False,
             message=message,
-- 
2.43.0


From e1ddf65354bc99168f3e3d636ec0b43a8a7a78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:06 +0000
Subject: [PATCH 11/51] fix: licant-libs --remove removes the named library

---
 licant/licant_libs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 4f46556..7a11a3b 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -75,10 +75,12 @@ def licant_libs_utility():
             add_record(name, path)
 
     if opts.remove:
+        name = args[0]
         try:
             del paths[name]
-        except:
+        except KeyError:
             print("Unregistred library {}".format(name))
+            exit(-1)
 
     try:
         print(f"update: {paths_file}, text: {json.dumps(paths, indent=4)}")
-- 
2.43.0


From 10107b5cffe97f01d6bc43a4bec89a985328b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 12/51] fix: licant-libs without arguments prints its help

---
 licant/licant_libs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 7a11a3b..52e0efa 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -55,7 +55,7 @@ def licant_libs_utility():
         exit(0)
 
     if len(args) == 0:
-        parser.help()
+        parser.print_help()
         exit(0)
 
     path = None
-- 
2.43.0


From f42223cf03a7780a123466bd97f4367d75be7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 13/51] fix: header names with any characters are read from
 dependency files

---
 licant/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/licant/util.py b/licant/util.py
index c91727c..6dad2f5 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -237,7 +237,7 @@ def find_recursive(root, pattern, hide, debug):
     return result
 
 
-cxx_read_depends_pattern = re.compile(r"[\w./-]+")
+cxx_read_depends_pattern = re.compile(r"(?:\\[ #]|[^\s\\])+")
 
 
 def cxx_read_depends(path):
@@ -250,8 +250,9 @@ def cxx_read_depends(path):
         if len(text) == 0:
             return None
 
-        lst = cxx_read_depends_pattern.findall(text)
-        return lst[2:]
+        lst = cxx_read_depends_pattern.findall(text.partition(": ")[2])
+        lst = [re.sub(r"\\([ #])", r"\1", f).replace("$$", "$") for f in lst]
+        return lst[1:]
 
 
 def get_actions(target):
-- 
2.43.0


From 90ed1bb202bf769c8ba93f1ce277ace25d5bcfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:10 +0000
Subject: [PATCH 14/51] fix: install_application without a target name returns
 the copy itself

---
 licant/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 4a1ca26..1d8199f 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -81,9 +81,9 @@ def install_application(src, dst, tgt=None):
         return None
 
     apptgt = os.path.join(path, dst)
-    if tgt is None:
-        tgt = apptgt
     licant.make.copy(tgt=apptgt, src=src)
+    if tgt is None:
+        return apptgt
     return licant.fileset(tgt=tgt, targets=[apptgt])
 
 
-- 
2.43.0


From 1c35bc84b49183822b3793391690eb343fd90232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 15/51] fix: the uninstall target removes the installed files

---
 licant/install.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 1d8199f..22f38b1 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -120,6 +120,13 @@ def install_shared_library(src, newname=None):
     return tgt
 
 
+def remove_installed(target):
+    for name in sorted(target.weakdeps):
+        installed = target.core.get(name)
+        if licant.make.if_file_and_exist(installed):
+            installed.clr()
+
+
 def install_library(tgt, hroot, headers, headers_patterns=("*.h", "*.hxx", "*.hpp"), uninstall=None, libtgt=None):
     if error_in_install_library:
         return None
@@ -155,8 +162,8 @@ def install_library(tgt, hroot, headers, headers_patterns=("*.h", "*.hxx", "*.hp
         default_core().add(
             licant.make.MakeFileTarget(
                 tgt=uninstall,
-                build=licant.make.MakeFileTarget.clean,
-                makefile=licant.make.MakeFileTarget.clean,
+                build=remove_installed,
+                makefile=remove_installed,
                 deps=[],
                 weakdeps=rawtgts + ltgt
             )
-- 
2.43.0


From 6881ff3cd7afd588d63e6b9b7006d4eb35405301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:13 +0000
Subject: [PATCH 16/51] fix: installation works when a program directory was
 found in PATH

---
 licant/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/install.py b/licant/install.py
index 22f38b1..e09b547 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -25,6 +25,7 @@ def find_application_path():
         path = "/usr/local/bin"
 
     else:
+        path = None
         for p in path_list:
             if "/usr/bin" in p:
                 path = p
@@ -37,7 +38,7 @@ def find_application_path():
             if "\\usr\\local\\bin" in p:
                 path = p
                 break
-        else:
+        if path is None:
             print("Warning: Install path not found")
             error_in_install_library = True
 
-- 
2.43.0


From e925223b251398c8522df4fb9218ae4c90a2e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 17/51] fix: WrongAction can be printed

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 711c357..5b9a7ea 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -15,7 +15,7 @@ class WrongAction(Exception):
         self.actname = actname
 
     def __str__(self):
-        return "WrongAction: obj:{} actname:{} class:{} dict:{self.obj.__dict__}".format(self.obj, self.actname, self.obj.__class__, self.obj.__dict__)
+        return "WrongAction: obj:{} actname:{} class:{} dict:{}".format(self.obj, self.actname, self.obj.__class__, self.obj.__dict__)
 
 
 class NoneDictionary(dict):
-- 
2.43.0


From 90a6861110256995a28b79d2463254981ac0cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 18/51] fix: every update condition is evaluated once per
 request

---
 licant/core.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 5b9a7ea..d3422a3 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -343,14 +343,9 @@ class UpdatableTarget(Target):
         if self.need_update is not None:
             return self.need_update
 
-        if self.update_if(self):
-            return True
-
-        for dep in self.get_deplist():
-            if dep.recursive_update_needed_request():
-                return True
-
-        return False
+        self.need_update = bool(self.update_if(self)) or any(
+            dep.recursive_update_needed_request() for dep in self.get_deplist())
+        return self.need_update
 
     def invoke_function_or_method(self, act):
         if isinstance(act, types.MethodType):
-- 
2.43.0


From 40db082a4128716a266c236ee63b69a7af56ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 19/51] fix: arguments of a routine are not kept for later
 requests

---
 licant/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index d3422a3..d093314 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -424,7 +424,10 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        return self.recurse_update(threads=threads)
+        try:
+            return self.recurse_update(threads=threads)
+        finally:
+            self.args = []
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From d004323d23444c6dbeb5115e102e50bed477d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 20/51] fix: a non-positive amount of threads is an error, not
 a hang

---
 licant/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/licant/cli.py b/licant/cli.py
index a00072f..2ba1b41 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -145,6 +145,8 @@ def cliexecute(
     cpu_count = os.cpu_count()
     core.runtime["threads"] = cpu_count if opts.threads == "j" else int(
         opts.threads)
+    if core.runtime["threads"] < 1:
+        licant.util.error("amount of threads must be positive")
 
     if opts.printruntime:
         print("PRINT RUNTIME:", core.runtime)
-- 
2.43.0


From 6de985c4e4f952a388a68fcce7a35aab022d260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 21/51] fix: MakeCore.source recognises a known target spelled
 with a tilde

---
 licant/make.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 03e9e21..45d8410 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -336,10 +336,10 @@ class MakeCore(Core):
 
     def source(self, src):
         """Index source file by licant core."""
-        if self.has(str(src)):
-            return self.get(str(src))
-
         src = os.path.expanduser(str(src))
+        if self.has(src):
+            return self.get(src)
+
         target = self.add(FileTarget(
             tgt=src,
             build=lambda self: self.warn_if_not_exist(),
-- 
2.43.0


From 2fbffc7e67f2d89496d0d778ae64522625ba11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:31 +0000
Subject: [PATCH 22/51] fix: objects of nested submodules reach the product

---
 licant/cxx_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 0509ed3..fb3aa40 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -524,7 +524,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)
+            submodules_results += modmake(smod.name, smod.impl, locopts)[0]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From 3bcbca9a2ea8a378d6b97c1911040febf7f92fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 23/51] fix: included modules may include further modules by
 name

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index fb3aa40..67d828e 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -450,7 +450,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
 
                 if "include_modules" in imod.opts:
                     retopts = include_modules(
-                        retopts, imod.opts["include_modules"])
+                        retopts, concat_to_submodule(
+                            None, imod.opts["include_modules"], None, None, None))
 
             return retopts
 
-- 
2.43.0


From a54955f64e6e4e95e5f0fef6992d3e551a964294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:34 +0000
Subject: [PATCH 24/51] fix: include paths added for a submodule do not leak to
 its siblings

---
 licant/cxx_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 67d828e..4ecb2e1 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -86,7 +86,7 @@ def local_add_srcdir(base, local, solver, tbase, tlocal):
 
 def concat_add_locdir(base, local, solver, tbase, tlocal):
     if local is None:
-        return base
+        return list(base)
 
     if isinstance(local, type("str")):
         local = [local]
-- 
2.43.0


From eeea3c750178112325fb2d8f0d1b05bdeb138e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 25/51] fix: modules may depend on each other by explicit
 implementation

---
 licant/cxx_modules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 4ecb2e1..79251a1 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -348,6 +348,7 @@ def collect_modules(mod):
     mdepends_default = queue.Queue()
     mdepends = dict()
     included_from = dict()
+    in_progress = []
 
     class SortKey:
         def __init__(self):
@@ -378,6 +379,7 @@ def collect_modules(mod):
         if default_core().runtime["trace"]:
             print("trace: collect_modules( {} )".format(mod.name))
 
+        in_progress.append(mod)
         for md in mod.opts["mdepends"]:
             if isinstance(md, str):
                 if md in mdepends:
@@ -399,12 +401,13 @@ def collect_modules(mod):
 
                 specify_implementation(name=md[0], mod=nmod, incfrom=mod.name)
 
-                if "mdepends" in nmod.opts:
+                if "mdepends" in nmod.opts and nmod not in in_progress:
                     # Сразу же выполняем обход по данному модулю
                     collect_modules(nmod)
 
             else:
                 licant.error("Very strange mpdepend")
+        in_progress.pop()
 
     if "mdepends" in mod.opts:
         collect_modules(mod)
-- 
2.43.0


From 3846aa1c4745e2ea3d527f3d86b5bdd51ef43459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:55 +0000
Subject: [PATCH 26/51] fix: naming a dependency twice does not break the build

---
 licant/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index d093314..9be5640 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -382,7 +382,9 @@ class UpdatableTarget(Target):
             def what_to_do(d):
                 return d.update_if_need()
             # Это нужно для корректной обработки путей файлов.
-            deps_as_targets_names = [self.core.get(d).tgt for d in d.deps]
+            # Одна и та же цель может быть названа дважды под разными именами.
+            deps_as_targets_names = list(dict.fromkeys(
+                self.core.get(dep).tgt for dep in d.deps))
             dtgt = DependableTarget(name=d.tgt,
                                     deps=deps_as_targets_names,
                                     what_to_do=partial(what_to_do, d),
-- 
2.43.0


From 1475c6335f526c4d94252f25902448e1347dea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:52 +0000
Subject: [PATCH 27/51] fix: an interrupt that hits a worker ends the build
 instead of hanging it

---
 licant/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/solver.py b/licant/solver.py
index 3411fbc..5c88a7e 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -149,7 +149,7 @@ class TaskInvoker:
 
             except KeyboardInterrupt:
                 self.error_while_execution = True
-                break
+                raise
 
         await self.release_queue()
 
-- 
2.43.0


From 4f4acabed52bb46f3515524c83daf6e44bcdbbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 28/51] fix: MakeCore creates the directory the output path
 really denotes

---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 45d8410..3d48355 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -291,7 +291,7 @@ class MakeCore(Core):
 
     def dirkeep(self, path):
         """Create directory tree for this file if needed."""
-        base_directory_path = os.path.normpath(os.path.dirname(path))
+        base_directory_path = os.path.dirname(licant.util.canonical_path(path))
         if not os.path.exists(base_directory_path):
             deps = self.dirkeep(base_directory_path)
             if not self.has(base_directory_path):
-- 
2.43.0


From 73243712716258086f814bd7884ad5bcb6414d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:38 +0000
Subject: [PATCH 29/51] fix: rebuild the header list after a failed compilation

---
 licant/cxx_modules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 79251a1..ae10226 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -294,7 +294,10 @@ def link_objects(srcs, objs, deps, cxxopts, adddeps):
             licant.make.source(s)
 
         headers = cxx_read_depends(d)
-        force = headers is None
+        # The list is not reliable until the compilation that follows it succeeds:
+        # the compiler omits headers that did not exist yet.
+        force = (headers is None or not os.path.exists(o)
+                 or os.path.getmtime(o) < os.path.getmtime(d))
         if headers is None:
             headers = []
         else:
-- 
2.43.0


From a2f30b63c0580ec1e10024177d1d0e8d594ab250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 30/51] fix: sources differing only in extension get their own
 object files

---
 licant/cxx_modules.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index ae10226..8c9b68c 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -232,10 +232,14 @@ def cxx_options_from_modopts(modopts):
     )
 
 
-def build_paths(srcs, opts, ext, prefix=None, builddir=None):
+def build_paths(srcs, opts, ext, prefix=None, builddir=None, keepext=False):
     if builddir is None:
         builddir = opts.opts["builddir"]
 
+    def newext(path):
+        # a.c and a.cpp are different objects
+        return path + "." + ext if keepext else gu.changeext(path, ext)
+
     objs = []
 
     for s in srcs:
@@ -243,13 +247,13 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None):
             split = os.path.split(s)
             s = os.path.join(*split[:-1], prefix + split[-1])
         if os.path.isabs(s):
-            s = builddir + gu.changeext(s, ext)
+            s = builddir + newext(s)
             objs.append(s)
         else:
             objs.append(
                 os.path.normpath(
                     os.path.join(
-                        builddir, gu.changeext(s, ext).replace("..", "__")
+                        builddir, newext(s).replace("..", "__")
                     )
                 )
             )
@@ -490,8 +494,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
                 adddeps.append(dep)
 
         locsrcs = sources_paths(locopts)
-        locobjs = build_paths(locsrcs, locopts, "o")
-        locdeps = build_paths(locsrcs, locopts, "d")
+        locobjs = build_paths(locsrcs, locopts, "o", keepext=True)
+        locdeps = build_paths(locsrcs, locopts, "d", keepext=True)
 
         cxxopts = cxx_options_from_modopts(locopts)
 
-- 
2.43.0


From ead3c5d51240c6e9fdd85a19c142063c43c59228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:18 +0000
Subject: [PATCH 31/51] fix: modules included by a product are not linked again
 by its submodules

---
 licant/cxx_modules.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 8c9b68c..277373b 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -113,13 +113,12 @@ def local_if_exist(base, local, solver, tbase, tlocal):
     return base if local is None else local
 
 
-def concat_to_submodule(base, local, solver, tbase, tlocal):
+def local_to_submodule(base, local, solver, tbase, tlocal):
+    """ Список не наследуется: сделанное включение уже отражено в опциях
+    родителя, а повторное включило бы его исходники дважды."""
     if local is None:
         local = []
-    if base is None:
-        base = []
-    lm = [licant.modules.submodule(l) for l in local]
-    return base + lm
+    return [licant.modules.submodule(l) for l in local]
 
 
 def cxx_module_field_list():
@@ -144,7 +143,7 @@ def cxx_module_field_list():
     "builddir": solver("str", local_if_exist, base, "build"),
     "toolchain": solver("toolchain", local_if_exist, base, default_toolchain()),
     "optimize": solver("str", local_if_exist, base, ""),
-    "include_modules": solver("list", concat_to_submodule, base, []),
+    "include_modules": solver("list", local_to_submodule, base, []),
     "defines": solver("list", concat, concat, []),
     "ldscripts": solver("list", concat_add_locdir, concat_add_locdir, []),
     "local_headers": solver(
@@ -460,7 +459,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
 
                 if "include_modules" in imod.opts:
                     retopts = include_modules(
-                        retopts, concat_to_submodule(
+                        retopts, local_to_submodule(
                             None, imod.opts["include_modules"], None, None, None))
 
             return retopts
-- 
2.43.0


From e9dbe993c6180ac2601b3debb13758875ed3ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 32/51] fix: a submodule may be a library that is linked into
 the product

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 277373b..468f6a7 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -534,7 +534,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)[0]
+            submodules_results += [
+                str(r) for r in modmake(smod.name, smod.impl, locopts)[0]]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From cc09ca400bd64a7aa1e28e8696936983641f53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 33/51] fix: object paths of absolute sources are normalised
 like the others

---
 licant/cxx_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 468f6a7..bf4b680 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -246,7 +246,7 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None, keepext=False):
             split = os.path.split(s)
             s = os.path.join(*split[:-1], prefix + split[-1])
         if os.path.isabs(s):
-            s = builddir + newext(s)
+            s = os.path.normpath(builddir + newext(s))
             objs.append(s)
         else:
             objs.append(
-- 
2.43.0


From cda93be2433c9fcac4fb9b19f4908f9bcdafdb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 34/51] fix: sources whose paths differ only in '..', '__' or a
 leading slash get their own objects

---
 licant/cxx_modules.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index bf4b680..7038694 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -231,6 +231,22 @@ def cxx_options_from_modopts(modopts):
     )
 
 
+def path_in_builddir(path):
+    """ Different sources have different paths: '..' turns to '__', the root
+    directory to '___', and real names like these get longer."""
+    def part(name):
+        if name == "..":
+            return "__"
+        if len(name) > 1 and name.strip("_") == "":
+            return name + "__"
+        return name
+
+    parts = [part(name) for name in path.split(os.sep)]
+    if os.path.isabs(path):
+        parts[0] = "___"
+    return os.sep.join(parts)
+
+
 def build_paths(srcs, opts, ext, prefix=None, builddir=None, keepext=False):
     if builddir is None:
         builddir = opts.opts["builddir"]
@@ -245,17 +261,8 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None, keepext=False):
         if prefix:
             split = os.path.split(s)
             s = os.path.join(*split[:-1], prefix + split[-1])
-        if os.path.isabs(s):
-            s = os.path.normpath(builddir + newext(s))
-            objs.append(s)
-        else:
-            objs.append(
-                os.path.normpath(
-                    os.path.join(
-                        builddir, newext(s).replace("..", "__")
-                    )
-                )
-            )
+        objs.append(os.path.normpath(
+            os.path.join(builddir, path_in_builddir(newext(s)))))
 
     return objs
 
-- 
2.43.0


From 684b80c3932bbf39736725084d20ede04b5fd9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 35/51] fix: execute_recursive hides directories by their name
 below the root only

---
 licant/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/util.py b/licant/util.py
index 6dad2f5..549f3ae 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -226,7 +226,8 @@ def find_recursive(root, pattern, hide, debug):
 
     else:
         for d, dirs, files in os.walk(root):
-            if hide not in d:
+            # only directories below the root are hidden, whatever the root's own name
+            if hide not in os.path.join(os.sep, os.path.relpath(d, root)):
                 for f in files:
                     if pattern in f:
                         path = os.path.join(d, f)
-- 
2.43.0


From da2e4c47ecf9821f72e697bc5fa1b0f182a92c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:25 +0000
Subject: [PATCH 36/51] fix: libraries of a directory with a special name can
 be registered

---
 licant/licant_libs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 52e0efa..65381a9 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -67,7 +67,7 @@ def licant_libs_utility():
 
     if len(args) == 1 and opts.remove == False:
         import glob
-        ret = glob.glob(os.path.join(args[0], "*.g.py"))
+        ret = glob.glob(os.path.join(glob.escape(args[0]), "*.g.py"))
         for f in ret:
             fname = os.path.basename(f)
             name = fname.split('.')[0]
-- 
2.43.0


From 075b6be7d5ccd8f949e2b8826afbda65ac131b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 37/51] fix: a local tunnel may be created in the current
 directory

---
 licant/libs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/libs.py b/licant/libs.py
index 6a7398d..d2e15e4 100644
--- a/licant/libs.py
+++ b/licant/libs.py
@@ -59,8 +59,8 @@ def include(lib, path=None, local_tunel=None):
 
         if not os.path.exists(local_tunel[0]):
             # Убеждаемся, что директории до тунеля существуют
-            if not os.path.exists(os.path.dirname(local_tunel[0])):
-                os.makedirs(os.path.dirname(local_tunel[0]))
+            os.makedirs(os.path.dirname(os.path.abspath(local_tunel[0])),
+                        exist_ok=True)
 
             rawdir = os.path.dirname(libs[lib])
 
-- 
2.43.0


From 2ce0519fbf2ef4676380e3797256f49f67756adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:03 +0000
Subject: [PATCH 38/51] fix: (C18) installing the same headers to two places:
 each install has its own header set

---
 licant/install.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/licant/install.py b/licant/install.py
index e09b547..99cc1a0 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -103,7 +103,13 @@ def install_headers(tgtdir, srcdir, patterns=("*.h", "*.hxx"), adddeps=[]):
 
     targets = [licant.copy(src=h, tgt=os.path.join(
         headers_path, tgtdir, os.path.relpath(h, srcdir)), adddeps=adddeps) for h in headers]
-    full_target = licant.fileset(tgt="headers://"+srcdir, targets=targets)
+
+    # The same directory can be installed more than once, to other places
+    # or with other patterns: each time with its own set of targets.
+    name = "headers://" + srcdir
+    while default_core().exist(name):
+        name += "+"
+    full_target = licant.fileset(tgt=name, targets=targets)
 
     return full_target, targets
 
-- 
2.43.0


From 2a7176d5c306688a81ed959ce0726c0df07d3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 39/51] fix: a source or object named twice in a product is
 compiled and linked once

---
 licant/cxx_modules.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 7038694..c9b1fe6 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -267,6 +267,16 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None, keepext=False):
     return objs
 
 
+def unique_paths(paths):
+    """ A file named several times (by overlapping patterns, by a module
+    included on two ways) is one file."""
+    ret = dict()
+    for p in paths:
+        head, tail = os.path.split(p)
+        ret.setdefault(os.path.join(os.path.realpath(head), tail), p)
+    return list(ret.values())
+
+
 def sources_paths(opts):
     ret = []
     for s in opts["sources"]:
@@ -274,7 +284,7 @@ def sources_paths(opts):
             ret.extend(glob.glob(s))
         else:
             ret.append(s)
-    return ret
+    return unique_paths(ret)
 
 
 def qt_moc_paths(opts):
@@ -284,7 +294,7 @@ def qt_moc_paths(opts):
             ret.extend(glob.glob(s))
         else:
             ret.append(s)
-    return ret
+    return unique_paths(ret)
 
 
 def qt_ui_paths(opts):
@@ -294,7 +304,7 @@ def qt_ui_paths(opts):
             ret.extend(glob.glob(s))
         else:
             ret.append(s)
-    return ret
+    return unique_paths(ret)
 
 
 def link_objects(srcs, objs, deps, cxxopts, adddeps):
@@ -534,9 +544,10 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         link_objects(locsrcs, locobjs, locdeps, cxxopts, adddeps)
 
         if len(locopts["objects"]) != 0:
-            for t in locopts["objects"]:
+            prebuilt = unique_paths(locopts["objects"])
+            for t in prebuilt:
                 licant.make.source(t)
-            locobjs.extend(locopts["objects"])
+            locobjs.extend(prebuilt)
 
         submodules_results = []
         # print(locopts["modules"])
-- 
2.43.0


From 91e80a5b32c172726445f4fe695970f777c285c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 40/51] fix: a build uses as many threads as requested,
 whatever the machine's default is

---
 licant/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/licant/solver.py b/licant/solver.py
index 5c88a7e..0f145f1 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,4 +1,5 @@
 import asyncio
+from concurrent.futures import ThreadPoolExecutor
 from licant.util import invert_depends_dictionary, red
 import contextlib
 import traceback
@@ -73,6 +74,9 @@ class TaskInvoker:
     def __init__(self, threads_count: int, trace=False):
         self.loop = asyncio.new_event_loop()
         asyncio.set_event_loop(self.loop)
+        # The executor a loop has by default limits the number of threads.
+        self.loop.set_default_executor(
+            ThreadPoolExecutor(max_workers=threads_count))
         self.queue = asyncio.Queue()
         self.threads_count = threads_count
         self.tasks = []
-- 
2.43.0


From 63429c07566ee18d82693907d81abd75dde9a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 41/51] fix: every ex() call in a process obeys its own command
 line

---
 licant/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index 2ba1b41..419b9b2 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -15,6 +15,7 @@ default_target = None
 parser = ArgumentParser(formatter_class=RawTextHelpFormatter)
 opts = None
 args = None
+parsed_argv = None
 
 
 def make_freeargs_help():
@@ -58,11 +59,12 @@ def add_argument(*args, **kvargs):
 
 
 def parse(argv=sys.argv[1:]):
-    global opts, args
+    global opts, args, parsed_argv
 
-    if not opts:
+    if not opts or parsed_argv != argv:
         opts = parser.parse_args(argv)
         args = opts.freeargs
+        parsed_argv = list(argv)
 
     if opts.clang_toolchain:
         set_default_toolchain("clang")
-- 
2.43.0


From 134a03d68e5b1b7e7025a108c422907d8249c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 42/51] fix: included_from names the modules that ask for a
 module, all of them and no other

---
 licant/cxx_modules.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index c9b1fe6..c29e99c 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -389,10 +389,9 @@ def collect_modules(mod):
 
         included_from[name].add(incfrom)
 
-    def specify_implementation(name, mod, incfrom):
+    def specify_implementation(name, mod):
         mdepends[name] = mod
         setsortkey(mod)
-        add_included_from(name, incfrom)
 
     def request_implementation(name, incfrom):
         mdepends_default.put(name)
@@ -406,6 +405,7 @@ def collect_modules(mod):
         for md in mod.opts["mdepends"]:
             if isinstance(md, str):
                 if md in mdepends:
+                    add_included_from(md, mod.name)
                     continue
 
                 request_implementation(name=md, incfrom=mod.name)
@@ -422,7 +422,8 @@ def collect_modules(mod):
                         )
                     )
 
-                specify_implementation(name=md[0], mod=nmod, incfrom=mod.name)
+                specify_implementation(name=md[0], mod=nmod)
+                add_included_from(md[0], mod.name)
 
                 if "mdepends" in nmod.opts and nmod not in in_progress:
                     # Сразу же выполняем обход по данному модулю
@@ -441,7 +442,7 @@ def collect_modules(mod):
             continue
 
         defmod = mlibrary.get_default(name)
-        specify_implementation(name, defmod, mod.name)
+        specify_implementation(name, defmod)
 
         if "mdepends" in defmod.opts:
             collect_modules(defmod)
-- 
2.43.0


From 54db4c86aadab01f5d64b700f6a1454a8b9b63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 43/51] fix: finalopts works for applications and libraries too

---
 licant/cxx_modules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index c29e99c..888043e 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -588,6 +588,7 @@ def task(name, target, impl, type, core, **kwargs):
     #licant.make.fileset(tgt=name, targets=ret, finalopts=opts, core=core)
 
     if type != "objects":
+        ret[0].finalopts = opts
         return ret[0]
     else:
         return licant.make.fileset(tgt=name, targets=ret, finalopts=opts, core=core)
-- 
2.43.0


From e783ed3219ba870e460cd5cbb5d8fc2cffb34f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 44/51] fix: binutils disasm takes its words, and objdump from
 the toolchain of the object

---
 licant/cxx_make.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/licant/cxx_make.py b/licant/cxx_make.py
index f278dd4..1745c91 100644
--- a/licant/cxx_make.py
+++ b/licant/cxx_make.py
@@ -283,17 +283,19 @@ def make_gcc_binutils(pref):
     )
 
 
-def disassembler(target, core=default_core(), *args):
+def disassembler(target, *args):
     if len(args) <= 1:
         print("usage: disasm object_path asmlist_path")
+        return
 
-    _target = core.get(args[0])
-    _target.makefile()
+    _target = target.core.get(args[0])
+    if _target.makefile() is False:
+        return False
 
-    cmd = "{} -D {} > {}".format(_target.opts.binutils.objdump,
+    cmd = "{} -D {} > {}".format(_target.opts.toolchain.objdump,
                                  _target.tgt, args[1])
     print(cmd)
-    os.system(cmd)
+    return os.system(cmd) == 0
 
 
 def objcopy(toolchain, tgt, src, format, sections, core=default_core(), message="OBJCOPY {tgt}"):
-- 
2.43.0


From ec23eb0e7f06b846a1dc7bb039baf80d85bef4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 45/51] fix: a core lists its targets, as the README shows

---
 licant/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/licant/core.py b/licant/core.py
index 9be5640..8109a52 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -56,6 +56,11 @@ class Core:
     def trace_mode(self):
         return self.runtime["trace"]
 
+    @property
+    def targets(self):
+        """Registered targets by their names"""
+        return self._targets
+
     def exist(self, name):
         return self.has(name)
 
-- 
2.43.0


From d6ed0aede0ad2aa0da69d8ef8f2da742f4f059e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 46/51] fix: a step ending with StopIteration, GeneratorExit
 and the like fails instead of hanging the build; exit waits for the steps in
 progress

---
 licant/solver.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/licant/solver.py b/licant/solver.py
index 0f145f1..be01e96 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -13,10 +13,22 @@ class DependableTarget:
         self.args = args
         self.kwargs = kwargs
         self._is_done = False
+        self.exit_request = None
 
     def doit_impl(self):
-        a = self.what_to_do(*self.args, **self.kwargs)
-        return a
+        try:
+            return self.what_to_do(*self.args, **self.kwargs)
+        except KeyboardInterrupt:
+            raise
+        except SystemExit as ex:
+            # It would end the loop before the tasks in progress.
+            self.exit_request = ex
+            return False
+        except BaseException:
+            # StopIteration, GeneratorExit, CancelledError and the like
+            # can't pass through the loop.
+            traceback.print_exc()
+            return False
 
     async def doit(self):
         task = asyncio.to_thread(self.doit_impl)
@@ -287,4 +299,7 @@ class InverseRecursiveSolver:
         if self.trace:
             print("[Trace] Execution finished. Status:",
                   not self.task_invoker.error_while_execution)
+        for d in self.deptargets:
+            if d.deptarget.exit_request is not None:
+                raise d.deptarget.exit_request
         return not self.task_invoker.error_while_execution
-- 
2.43.0


From ba39a9f210ccf4370fb3d4ecd14cf129b8653d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:29 +0000
Subject: [PATCH 47/51] fix: do() returns what the action returns, so that a
 failed build can be noticed

---
 licant/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 8109a52..1351720 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -124,19 +124,17 @@ class Core:
         return self.add(UpdatableTarget(name, deps=deps, **kwargs))
 
     def do(self, target, action=None, args=[], kwargs={}):
-        """Do action on target"""
+        """Do action on target; returns what the action returns (a list for a list of targets)"""
         if isinstance(target, str):
             target = self.get(target)
 
         if isinstance(target, (list, tuple)):
-            for t in target:
-                self.do(t, action, args, kwargs)
-            return
+            return [self.do(t, action, args, kwargs) for t in target]
 
         if action is None:
             action = target.default_action
 
-        target.invoke(action, args=args, kwargs=kwargs)
+        return target.invoke(action, args=args, kwargs=kwargs)
 
     def routine_do(self, func=None, deps=[], update_if=lambda s: True, tgt=None):
         self.add(Routine(func=func, deps=deps, update_if=update_if, tgt=tgt))
@@ -442,7 +440,7 @@ def routine(func=None, **kwargs):
 
 
 def do(target, action=None, args=[], kwargs={}):
-    default_core().do(target=target, action=action, args=args, kwargs=kwargs)
+    return default_core().do(target=target, action=action, args=args, kwargs=kwargs)
 
 
 def get_target(name):
-- 
2.43.0


From 3d98ec8734fbb28e033cadaa4f01b3f866660aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 48/51] fix: 'from licant import *' failed on names that don't
 exist

---
 licant/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/licant/__init__.py b/licant/__init__.py
index ce9126f..a188c96 100644
--- a/licant/__init__.py
+++ b/licant/__init__.py
@@ -90,9 +90,7 @@ __all__ = [
     "cxx_objects",
     "cxx_library",
     "cxx_application",
-    "shared_library",
-    "static_library",
-    "static_and_shared",
+    "cxx_static_and_shared",
     "makedir",
     "makefile",
     "fileset",
@@ -100,7 +98,6 @@ __all__ = [
     "source",
     "do",
     "routine",
-    "routine_decorator",
     "mtime",
     "UpdatableTarget",
     "Core",
-- 
2.43.0


From 7a86525bf415323b777b7aef3298942c841e8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 49/51] fix: names defined by a build script no longer replace
 those that executing scripts needs

---
 licant/scripter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licant/scripter.py b/licant/scripter.py
index 78369de..87c7bff 100644
--- a/licant/scripter.py
+++ b/licant/scripter.py
@@ -7,6 +7,7 @@ from licant.core import default_core
 class ScriptQueue:
     def __init__(self):
         self.stack = [sys.argv[0]]
+        self.globals = None
         licant.make.source(sys.argv[0])
 
     def __execute(self, path):
@@ -14,8 +15,11 @@ class ScriptQueue:
             print("SUBSCRIPT", path)
         licant.make.source(path)
         self.stack.append(path)
+        if self.globals is None:
+            # The names scripts define are not to replace the ones used here.
+            self.globals = dict(globals())
         try:
-            exec(open(path).read(), globals())
+            exec(open(path).read(), self.globals)
         except Exception as e:
             licant.util.error_exception("Exception in file {}".format(path), e)
         self.stack.pop()
-- 
2.43.0


From b89a90a693c7d7d33494d8e3eb788bea245d3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 50/51] fix: a submodule lost its local headers when another
 implementation or product used the same name

---
 licant/cxx_modules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 888043e..40647e9 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -502,7 +502,9 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
                 local_headers_targets.append(tgtpath)
 
         licant.make.fileset(name + "__local_headers__", local_headers_targets)
-        adddeps.append(name + "__local_headers__")
+        # Not the set: another implementation or a second use of the module
+        # declares a set of the same name.
+        adddeps.extend(local_headers_targets)
 
         for dep in locopts["depends"]:
             if "*" in dep:
-- 
2.43.0


From a4b082b897f3f5cfc6ec1432f25deb024102c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 51/51] fix: a submodule of two others was linked twice

---
 licant/cxx_modules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 40647e9..940c7ab 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -557,6 +557,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         for smod in locopts["modules"]:
             submodules_results += [
                 str(r) for r in modmake(smod.name, smod.impl, locopts)[0]]
+        # A submodule of two others is linked once, after both of them.
+        submodules_results = list(dict.fromkeys(submodules_results[::-1]))[::-1]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0

