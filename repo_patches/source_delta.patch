From 8a0a41b14283f4a2cd95b3c808709cb5013f21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 01/36] fix: quote backslashes and trailing newlines for POSIX
 shells in the ninja generator

---
 gyp/pylib/gyp/generator/ninja.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..871b9af 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -75,8 +75,10 @@ def QuoteShellArgument(arg, flavor):
     """Quote a string such that it will be interpreted as a single argument
     by the shell."""
     # Rather than attempting to enumerate the bad shell characters, just
-    # allow common OK ones and quote anything else.
-    if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+    # allow common OK ones and quote anything else. A backslash is only OK where
+    # it separates path components, a POSIX shell would drop it.
+    safe = r"[a-zA-Z0-9_=.\\/-]+" if flavor == "win" else r"[a-zA-Z0-9_=./-]+"
+    if re.fullmatch(safe, arg):
         return arg  # No quoting necessary.
     if flavor == "win":
         return gyp.msvs_emulation.QuoteForRspFile(arg)
-- 
2.43.0


From 7c6f5b3c1f6ed7bdc1dd113743c9720ca3b83334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 02/36] fix: never continue a ninja line before a space that
 ninja would drop

---
 gyp/pylib/gyp/ninja_syntax.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/ninja_syntax.py b/gyp/pylib/gyp/ninja_syntax.py
index 0e3e86c..b99cd83 100644
--- a/gyp/pylib/gyp/ninja_syntax.py
+++ b/gyp/pylib/gyp/ninja_syntax.py
@@ -121,6 +121,14 @@ class Writer:
             dollar_index -= 1
         return dollar_count
 
+    def _can_break_at(self, s, i):
+        """Returns whether the line can be continued after the space s[i]: it must
+        not be escaped, and the continuation must not start with a space, which
+        ninja would skip as indentation."""
+        return (
+            self._count_dollars_before_index(s, i) % 2 == 0 and s[i + 1 : i + 2] != " "
+        )
+
     def _line(self, text, indent=0):
         """Write 'text' word-wrapped at self.width characters."""
         leading_space = "  " * indent
@@ -133,7 +141,7 @@ class Writer:
             space = available_space
             while True:
                 space = text.rfind(" ", 0, space)
-                if space < 0 or self._count_dollars_before_index(text, space) % 2 == 0:
+                if space < 0 or self._can_break_at(text, space):
                     break
 
             if space < 0:
@@ -141,10 +149,7 @@ class Writer:
                 space = available_space - 1
                 while True:
                     space = text.find(" ", space + 1)
-                    if (
-                        space < 0
-                        or self._count_dollars_before_index(text, space) % 2 == 0
-                    ):
+                    if space < 0 or self._can_break_at(text, space):
                         break
             if space < 0:
                 # Give up on breaking.
-- 
2.43.0


From b9d8c020643e426b40a19477e356e445e42bc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 03/36] fix: double backslashes before the closing quote of
 Windows arguments

---
 gyp/pylib/gyp/generator/msvs.py | 3 +++
 gyp/pylib/gyp/msvs_emulation.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..7127ddf 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -785,6 +785,9 @@ def _EscapeCommandLineArgumentForMSVS(s):
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex.sub(_Replace, s)
+    # Backslashes at the end come to stand before the closing quote, which has to
+    # remain an unescaped one.
+    s = re.sub(r"(\\+)\Z", r"\1\1", s)
     # Now add unescaped quotes so that any whitespace is interpreted literally.
     s = '"' + s + '"'
     return s
diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index adda5a0..a4afb74 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -54,7 +54,9 @@ def QuoteForRspFile(arg, quote_cmd=True):
     # supports msvs_quote_cmd=0, which simply disables all quoting.
     if quote_cmd:
         # Finally, wrap the whole thing in quotes so that the above quote rule
-        # applies and whitespace isn't a word break.
+        # applies and whitespace isn't a word break. Backslashes at the end come
+        # to stand before the closing quote, so they have to be doubled.
+        arg = re.sub(r"(\\+)\Z", r"\1\1", arg)
         return f'"{arg}"'
 
     return arg
-- 
2.43.0


From ce20b5d2bcd383963fce5c8ba9fee53f68ac207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 04/36] fix: MSBuild defines with a backslash before a quote
 raised TypeError

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 7127ddf..f111b34 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -863,7 +863,7 @@ def _EscapeCommandLineArgumentForMSBuild(s):
     """Escapes a Windows command-line argument for use by MSBuild."""
 
     def _Replace(match):
-        return (len(match.group(1)) / 2 * 4) * "\\" + '\\"'
+        return (len(match.group(1)) // 2 * 4) * "\\" + '\\"'
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex2.sub(_Replace, s)
-- 
2.43.0


From 7187d82cbb5f44181d8988af84e7070ca03ccc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 05/36] fix: WriteXmlIfChanged compares and writes encoded
 bytes

---
 gyp/pylib/gyp/easy_xml.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..b5f8119 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,25 +120,19 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    xml_bytes = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
 
     # It has changed, write it
-    if existing != xml_string:
+    if existing != xml_bytes:
         with open(path, "wb") as file:
-            file.write(xml_string)
+            file.write(xml_bytes)
 
 
 _xml_escape_map = {
-- 
2.43.0


From 0cf2037002bb974f2f2248f794114d3c58946343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 06/36] fix: keep tabs in XML attributes

---
 gyp/pylib/gyp/easy_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index b5f8119..8b7a865 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -141,6 +141,7 @@ _xml_escape_map = {
     "<": "&lt;",
     ">": "&gt;",
     "&": "&amp;",
+    "\t": "&#x9;",
     "\n": "&#xA;",
     "\r": "&#xD;",
 }
-- 
2.43.0


From 00d70ce1cf6abf1311378cc88f4d4b8688ad1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 07/36] fix: quote Xcode strings that end in a newline

---
 gyp/pylib/gyp/xcodeproj_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index cd72aa2..ab51877 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -157,7 +157,7 @@ def cmp(x, y):
 # transformed to be properly encoded.  Note that this expression matches the
 # characters listed with "+", for 1 or more occurrences: if a string is empty,
 # it must not match this pattern, because it needs to be encoded as "".
-_unquoted = re.compile("^[A-Za-z0-9$./_]+$")
+_unquoted = re.compile(r"^[A-Za-z0-9$./_]+\Z")
 
 # Strings that match this pattern are quoted regardless of what _unquoted says.
 # Oddly, Xcode will quote any string with a run of three or more underscores.
-- 
2.43.0


From 02a21263c3ae3bb8de02d6ccdbf6cf8beae04bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 08/36] fix: quote Xcode strings that contain //

---
 gyp/pylib/gyp/xcodeproj_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index ab51877..6a8fa2a 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -161,7 +161,8 @@ _unquoted = re.compile(r"^[A-Za-z0-9$./_]+\Z")
 
 # Strings that match this pattern are quoted regardless of what _unquoted says.
 # Oddly, Xcode will quote any string with a run of three or more underscores.
-_quoted = re.compile("___")
+# It also quotes "//", which would otherwise begin a comment.
+_quoted = re.compile("___|//")
 
 # This pattern should match any character that needs to be escaped by
 # XCObject._EncodeString.  See that function.
-- 
2.43.0


From fb47240ecd172a5509246c87c9f7b00d10c11eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 09/36] fix: double backslashes before a # in make defines

---
 gyp/pylib/gyp/generator/make.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..606df67 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -722,8 +722,9 @@ def EscapeCppDefine(s):
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
     # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment.
-    return s.replace("#", r"\#")
+    # treat it as the start of a comment. Make halves the backslashes before the
+    # one that escapes a '#', so they have to be doubled.
+    return re.sub(r"(\\*)#", r"\1\1\\#", s)
 
 
 def QuoteIfNecessary(string):
-- 
2.43.0


From 0495f76d1acf15752c455abeeb578cb2a04fe447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 10/36] fix: keep '#' in the commands of make actions and rules

---
 gyp/pylib/gyp/generator/make.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 606df67..428c53a 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1070,6 +1070,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             # makefile like $(TARGET), so hardcode the target.
             command = command.replace("$(TARGET)", self.target)
             cd_action = cd_action.replace("$(TARGET)", self.target)
+            # An unescaped '#' would start a comment in the variable's value.
+            command = re.sub(r"(\\*)#", r"\1\1\\#", command)
 
             # Set LD_LIBRARY_PATH in case the action runs an executable from this
             # build which links to shared libs from this build.
@@ -1239,6 +1241,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     ]
                 action = gyp.common.EncodePOSIXShellList(action)
                 action = action.replace("$(TARGET)", self.target)
+                # An unescaped '#' would start a comment in the variable's value.
+                action = re.sub(r"(\\*)#", r"\1\1\\#", action)
                 cd_action = cd_action.replace("$(TARGET)", self.target)
                 mkdirs = mkdirs.replace("$(TARGET)", self.target)
 
-- 
2.43.0


From 6e9fad0faf539d5f7c7a33c8f41c5bf9024f0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 11/36] fix: deepcopy of an unsupported type raised TypeError
 instead of its own Error

---
 gyp/pylib/gyp/simple_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/simple_copy.py b/gyp/pylib/gyp/simple_copy.py
index 729cec0..66f8ba0 100644
--- a/gyp/pylib/gyp/simple_copy.py
+++ b/gyp/pylib/gyp/simple_copy.py
@@ -25,7 +25,7 @@ def deepcopy(x):
     except KeyError:
         raise Error(
             "Unsupported type %s for deepcopy. Use copy.deepcopy "
-            + "or expand simple_copy support." % type(x)
+            "or expand simple_copy support." % type(x)
         )
 
 
-- 
2.43.0


From f0495364609e9119bf156e263d6a9f22a0e0a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 12/36] fix: regenerated short flags keep values that are empty
 or start with '='

---
 gyp/pylib/gyp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8933d0c..caca525 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -212,7 +212,9 @@ def ShlexEnv(env_name):
 
 
 def FormatOpt(opt, value):
-    if opt.startswith("--"):
+    # A short option takes everything after it as its value, except that one "=" in
+    # between is skipped, and that it takes the next argument if nothing follows it.
+    if opt.startswith("--") or value[:1] in ("", "="):
         return f"{opt}={value}"
     return opt + value
 
-- 
2.43.0


From c8e7af021f12f4d40c342ec2744c5573fefbc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 13/36] fix: a build file that includes itself made loading
 loop forever

Merging a file's data into itself appended to the very lists being read,
so a self-including file with a list of dicts or flags never finished.
---
 gyp/pylib/gyp/input.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..84d70ab 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -294,12 +294,10 @@ def LoadBuildFileIncludesIntoDict(
 
         gyp.DebugOutput(gyp.DEBUG_INCLUDES, "Loading Included File: '%s'", include)
 
-        MergeDicts(
-            subdict,
-            LoadOneBuildFile(include, data, aux_data, None, False, check),
-            subdict_path,
-            include,
-        )
+        included = LoadOneBuildFile(include, data, aux_data, None, False, check)
+        # A file that includes itself adds nothing to itself.
+        if included is not subdict:
+            MergeDicts(subdict, included, subdict_path, include)
 
     # Recurse into subdictionaries.
     for k, v in subdict.items():
-- 
2.43.0


From d0fdf32b1971eafae3478f7ad44f70dfb8b3094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 14/36] fix: the analyzer took files outside the source tree
 for files inside it

'../x' in a build file at the top of the tree, and a path with more '..' than
the directory of a build file outside the tree has components, named the file
x of the tree; an absolute path was looked up below the build file's
directory.
---
 gyp/pylib/gyp/generator/analyzer.py | 62 +++++++++--------------------
 1 file changed, 18 insertions(+), 44 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64573ad..3a75370 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -127,34 +127,12 @@ def _ToGypPath(path):
     return path
 
 
-def _ResolveParent(path, base_path_components):
-    """Resolves |path|, which starts with at least one '../'. Returns an empty
-  string if the path shouldn't be considered. See _AddSources() for a
-  description of |base_path_components|."""
-    depth = 0
-    while path.startswith("../"):
-        depth += 1
-        path = path[3:]
-    # Relative includes may go outside the source tree. For example, an action may
-    # have inputs in /usr/include, which are not in the source tree.
-    if depth > len(base_path_components):
-        return ""
-    if depth == len(base_path_components):
-        return path
-    return (
-        "/".join(base_path_components[0 : len(base_path_components) - depth])
-        + "/"
-        + path
-    )
-
-
-def _AddSources(sources, base_path, base_path_components, result):
+def _AddSources(sources, base_path, result):
     """Extracts valid sources from |sources| and adds them to |result|. Each
-  source file is relative to |base_path|, but may contain '..'. To make
-  resolving '..' easier |base_path_components| contains each of the
-  directories in |base_path|. Additionally each source may contain variables.
-  Such sources are ignored as it is assumed dependencies on them are expressed
-  and tracked in some other means."""
+  source file is absolute or relative to |base_path| and may contain '..', which
+  is resolved by _GenerateTargets(). Additionally each source may contain
+  variables. Such sources are ignored as it is assumed dependencies on them are
+  expressed and tracked in some other means."""
     # NOTE: gyp paths are always posix style.
     for source in sources:
         if not len(source) or source.startswith("!!!") or source.startswith("$"):
@@ -162,23 +140,23 @@ def _AddSources(sources, base_path, base_path_components, result):
         # variable expansion may lead to //.
         org_source = source
         source = source[0] + source[1:].replace("//", "/")
-        if source.startswith("../"):
-            source = _ResolveParent(source, base_path_components)
-            if len(source):
-                result.append(source)
-            continue
-        result.append(base_path + source)
+        result.append(posixpath.join(base_path, source))
         if debug:
             print("AddSource", org_source, result[len(result) - 1])
 
 
-def _ExtractSourcesFromAction(action, base_path, base_path_components, results):
+def _ExtractSourcesFromAction(action, base_path, results):
     if "inputs" in action:
-        _AddSources(action["inputs"], base_path, base_path_components, results)
+        _AddSources(action["inputs"], base_path, results)
 
 
 def _ToLocalPath(toplevel_dir, path):
     """Converts |path| to a path relative to |toplevel_dir|."""
+    if path.startswith("../"):
+        # May leave the source tree and come back to it.
+        absolute = posixpath.normpath(posixpath.join(toplevel_dir, path))
+        if absolute.startswith(toplevel_dir + "/"):
+            path = absolute
     if path == toplevel_dir:
         return ""
     if path.startswith(toplevel_dir + "/"):
@@ -191,26 +169,21 @@ def _ExtractSources(target, target_dict, toplevel_dir):
     # source paths are always posix. Convert |target| to a posix path relative to
     # |toplevel_dir_|. This is done to make it easy to build source paths.
     base_path = posixpath.dirname(_ToLocalPath(toplevel_dir, _ToGypPath(target)))
-    base_path_components = base_path.split("/")
-
-    # Add a trailing '/' so that _AddSources() can easily build paths.
-    if len(base_path):
-        base_path += "/"
 
     if debug:
         print("ExtractSources", target, base_path)
 
     results = []
     if "sources" in target_dict:
-        _AddSources(target_dict["sources"], base_path, base_path_components, results)
+        _AddSources(target_dict["sources"], base_path, results)
     # Include the inputs from any actions. Any changes to these affect the
     # resulting output.
     if "actions" in target_dict:
         for action in target_dict["actions"]:
-            _ExtractSourcesFromAction(action, base_path, base_path_components, results)
+            _ExtractSourcesFromAction(action, base_path, results)
     if "rules" in target_dict:
         for rule in target_dict["rules"]:
-            _ExtractSourcesFromAction(rule, base_path, base_path_components, results)
+            _ExtractSourcesFromAction(rule, base_path, results)
 
     return results
 
@@ -402,7 +375,8 @@ def _GenerateTargets(data, target_list, target_dicts, toplevel_dir, files, build
                 target_name, target_dicts[target_name], toplevel_dir
             )
             for source in sources:
-                if _ToGypPath(os.path.normpath(source)) in files:
+                source = _ToLocalPath(toplevel_dir, _ToGypPath(os.path.normpath(source)))
+                if source in files:
                     print("target", target_name, "matches", source)
                     target.match_status = MATCH_STATUS_MATCHES
                     matching_targets.append(target)
-- 
2.43.0


From f0a13957a08efd42e5c906237331e0269b343ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 15/36] fix: the analyzer left out changed libraries that
 nothing it reports builds

A static library that a target outside the requested ones links was taken to be
built with it, and whether a changed library was reported depended on the
changed target from which it was reached first.
---
 gyp/pylib/gyp/generator/analyzer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 3a75370..003cb1a 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -465,10 +465,20 @@ def _AddCompileTargets(target, roots, add_if_no_ancestor, result):
     target.in_roots = target in roots
 
     for back_dep_target in target.back_deps:
-        _AddCompileTargets(back_dep_target, roots, False, result)
+        # A changed target is treated as such no matter from where it is reached
+        # first.
+        _AddCompileTargets(
+            back_dep_target,
+            roots,
+            back_dep_target.match_status == MATCH_STATUS_MATCHES,
+            result,
+        )
         target.added_to_compile_targets |= back_dep_target.added_to_compile_targets
         target.in_roots |= back_dep_target.in_roots
-        target.is_or_has_linked_ancestor |= back_dep_target.is_or_has_linked_ancestor
+        # Something that links but isn't built doesn't build what it links.
+        target.is_or_has_linked_ancestor |= (
+            back_dep_target.in_roots and back_dep_target.is_or_has_linked_ancestor
+        )
 
     # Always add 'executable' targets. Even though they may be built by other
     # targets that depend upon them it makes detection of what is going to be
-- 
2.43.0


From 199a299b8f3f7c2770ba247f3afc99599ebc7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 16/36] fix: the analyzer looked at one of the targets of a
 name and at one spelling of a build file

Targets of the same name in several build files or toolsets were all but one
ignored, and 'all' was empty for a build file given as ./x.gyp.
---
 gyp/pylib/gyp/generator/analyzer.py | 34 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 003cb1a..0b189e1 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -400,8 +400,8 @@ def _GenerateTargets(data, target_list, target_dicts, toplevel_dir, files, build
 
 def _GetUnqualifiedToTargetMapping(all_targets, to_find):
     """Returns a tuple of the following:
-  . mapping (dictionary) from unqualified name to Target for all the
-    Targets in |to_find|.
+  . mapping (dictionary) from unqualified name to the list of Targets of that
+    name (one per build file and toolset) for all the names in |to_find|.
   . any target names not found. If this is empty all targets were found."""
     result = {}
     if not to_find:
@@ -410,11 +410,8 @@ def _GetUnqualifiedToTargetMapping(all_targets, to_find):
     for target_name in all_targets:
         extracted = gyp.common.ParseQualifiedTarget(target_name)
         if len(extracted) > 1 and extracted[1] in to_find:
-            to_find.remove(extracted[1])
-            result[extracted[1]] = all_targets[target_name]
-            if not to_find:
-                return result, []
-    return result, list(to_find)
+            result.setdefault(extracted[1], []).append(all_targets[target_name])
+    return result, [name for name in to_find if name not in result]
 
 
 def _DoesTargetDependOnMatchingTargets(target):
@@ -590,9 +587,9 @@ def _NamesNotIn(names, mapping):
 
 
 def _LookupTargets(names, mapping):
-    """Returns a list of the mapping[name] for each value in |names| that is in
-  |mapping|."""
-    return [mapping[name] for name in names if name in mapping]
+    """Returns a list of the Targets in mapping[name] for each value in |names|
+  that is in |mapping|."""
+    return [target for name in names for target in mapping.get(name, [])]
 
 
 def CalculateVariables(default_variables, params):
@@ -631,7 +628,12 @@ class TargetCalculator:
             self._changed_targets,
             self._root_targets,
         ) = _GenerateTargets(
-            data, target_list, target_dicts, toplevel_dir, frozenset(files), build_files
+            data,
+            target_list,
+            target_dicts,
+            toplevel_dir,
+            frozenset(files),
+            frozenset(map(os.path.normpath, build_files)),
         )
         (
             self._unqualified_mapping,
@@ -690,10 +692,12 @@ class TargetCalculator:
         print("matched test_targets")
         for target in matching_test_targets:
             print("\t", target.name)
-        matching_target_names = [
-            gyp.common.ParseQualifiedTarget(target.name)[1]
-            for target in matching_test_targets
-        ]
+        matching_target_names = list(
+            {
+                gyp.common.ParseQualifiedTarget(target.name)[1]
+                for target in matching_test_targets
+            }
+        )
         if matching_test_targets_contains_all:
             matching_target_names.append("all")
             print("\tall")
-- 
2.43.0


From 24f174b18abac307bd9adacf0087038c33432525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 17/36] fix: evaluate conditions that expand to an integer

---
 gyp/pylib/gyp/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 84d70ab..4019ea2 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1172,6 +1172,8 @@ def EvalSingleCondition(cond_expr, true_dict, false_dict, phase, variables, buil
         )
 
     try:
+        # An expansion that gives a number comes back as an integer.
+        cond_expr_expanded = str(cond_expr_expanded)
         if cond_expr_expanded in cached_conditions_asts:
             ast_code = cached_conditions_asts[cond_expr_expanded]
         else:
-- 
2.43.0


From 02ead30e1a2a72d912ebaed6335e3d10e32b1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 18/36] fix: reject condition lists whose condition is not text

---
 gyp/pylib/gyp/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 4019ea2..21af815 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1131,6 +1131,8 @@ def EvalCondition(condition, conditions_key, phase, variables, build_file):
     result = None
     while i < len(condition):
         cond_expr = condition[i]
+        if not isinstance(cond_expr, (str, int)):
+            raise GypError(f"{conditions_key} {cond_expr} must be a string")
         true_dict = condition[i + 1]
         if not isinstance(true_dict, dict):
             raise GypError(
-- 
2.43.0


From 8400d4e808cf1bb703b4f7862cf09fa5c7e321af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 19/36] fix: keep every item of a list inside a merged list

---
 gyp/pylib/gyp/input.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 21af815..6ecc726 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2251,9 +2251,13 @@ def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
             # descendant dicts, path fixing will occur.  Note that here, custom
             # values for is_paths and append are dropped; those are only to be
             # applied to |to| and |fro|, not sublists of |fro|.  append shouldn't
-            # matter anyway because the new |to_item| list is empty.
+            # matter anyway because the new |to_item| list is empty.  The items are
+            # copied one at a time: nothing in a sublist is a singleton.
             to_item = []
-            MergeLists(to_item, item, to_file, fro_file)
+            for sub_item in item:
+                copied = []
+                MergeLists(copied, [sub_item], to_file, fro_file)
+                to_item += copied
         else:
             raise TypeError(
                 "Attempt to merge list item of unsupported type "
-- 
2.43.0


From 15b11e1ed4594477f30eb2b6593619fef9a0be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 20/36] fix: leave the list a variable holds alone when it is
 expanded

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 6ecc726..d0db85f 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1024,7 +1024,9 @@ def ExpandVariables(input, phase, variables, build_file):
                     )
             # Run through the list and handle variable expansions in it.  Since
             # the list is guaranteed not to contain dicts, this won't do anything
-            # with conditions sections.
+            # with conditions sections.  The list may be shared with other scopes,
+            # so this works on a copy.
+            replacement = gyp.simple_copy.deepcopy(replacement)
             ProcessVariablesAndConditionsInList(
                 replacement, phase, variables, build_file
             )
-- 
2.43.0


From e46f755c5a4dc26b4257cba595f302aa796668f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 21/36] fix: only ASCII digits make a canonical integer

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index d0db85f..379643c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -704,7 +704,7 @@ def IsStrCanonicalInt(string):
                 if not string:
                     return False
             if "1" <= string[0] <= "9":
-                return string.isdigit()
+                return string.isascii() and string.isdigit()
 
     return False
 
-- 
2.43.0


From d4dc5c6b9e576d96b6a39f2486f49ed3dc95d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 22/36] fix: accept a number or a list inside a reference

---
 gyp/pylib/gyp/input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 379643c..3eec98a 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -842,7 +842,10 @@ def ExpandVariables(input, phase, variables, build_file):
 
         # Strip off leading/trailing whitespace so that variable matches are
         # simpler below (and because they are rarely needed).
-        contents = contents.strip()
+        if not isinstance(contents, list):
+            contents = str(contents).strip()
+        elif not file_list:
+            raise GypError(f"A list cannot be used inside {replacement} in {build_file}")
 
         # expand_to_list is true if an @ variant is used.  In that case,
         # the expansion should result in a list.  Note that the caller
-- 
2.43.0


From fd1f5c8406b2073647ac95438eab590a31869636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 23/36] fix: report references with unbalanced brackets

---
 gyp/pylib/gyp/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 3eec98a..d3bae5c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -811,6 +811,10 @@ def ExpandVariables(input, phase, variables, build_file):
 
         # Find the ending paren, and re-evaluate the contained string.
         (c_start, c_end) = FindEnclosingBracketGroup(input_str[replace_start:])
+        if c_end == -1:
+            raise GypError(
+                f"Unbalanced brackets in {input_str[replace_start:]} in {build_file}"
+            )
 
         # Adjust the replacement range to match the entire command
         # found by FindEnclosingBracketGroup (since the variable_re
-- 
2.43.0


From 061ccbbbbe7aee157f055245c6bbd15abfd8dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 24/36] fix: splice lists that come out of a split command line

---
 gyp/pylib/gyp/input.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index d3bae5c..193d951 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1097,9 +1097,11 @@ def ExpandVariables(input, phase, variables, build_file):
             else:
                 new_output = []
                 for item in output:
-                    new_output.append(
-                        ExpandVariables(item, phase, variables, build_file)
-                    )
+                    expanded = ExpandVariables(item, phase, variables, build_file)
+                    if isinstance(expanded, list):
+                        new_output.extend(expanded)
+                    else:
+                        new_output.append(expanded)
                 output = new_output
         else:
             output = ExpandVariables(output, phase, variables, build_file)
-- 
2.43.0


From a623c25c0d9d5d2e4a117aeeb5df4202e950f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 25/36] fix: tell pymod_do_main results from those of commands

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 193d951..ae4b797 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -916,7 +916,7 @@ def ExpandVariables(input, phase, variables, build_file):
             # is invoked it produces different output by design. When the need
             # arises, the syntax should be extended to support no caching off a
             # command's output so it is run every time.
-            cache_key = (str(contents), build_file_dir)
+            cache_key = (str(contents), build_file_dir, command_string)
             cached_value = cached_command_results.get(cache_key, None)
             if cached_value is None:
                 gyp.DebugOutput(
-- 
2.43.0


From 2fe2a40f151c74123c7f4a2465467a079914d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 26/36] fix: prepend an item that is listed twice only once

---
 gyp/pylib/gyp/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index ae4b797..88ef80f 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2283,6 +2283,10 @@ def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
                 if is_hashable(to_item):
                     hashable_to_set.add(to_item)
         else:
+            # If prepending a singleton that has just been prepended, leave it there.
+            if singleton and to_item in to[:prepend_index]:
+                continue
+
             # If prepending a singleton that's already in the list, remove the
             # existing instance and proceed with the prepend.  This ensures that the
             # item appears at the earliest possible position in the list.
-- 
2.43.0


From f2360041580eebe4ff6e08abe77e6e7bbdcde20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 27/36] fix: report an unknown dependency of a none target as
 an error

---
 gyp/pylib/gyp/input.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 88ef80f..04af4ea 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1656,7 +1656,11 @@ def RemoveLinkDependenciesFromNoneTargets(targets):
             if dependencies:
                 for t in dependencies:
                     if target_dict.get("type", None) == "none":
-                        if targets[t].get("variables", {}).get("link_dependency", 0):
+                        # An unknown target is reported by BuildDependencyList.
+                        dependency_dict = targets.get(t, {})
+                        if dependency_dict.get("variables", {}).get(
+                            "link_dependency", 0
+                        ):
                             target_dict[dependency_key] = Filter(
                                 target_dict[dependency_key], t
                             )
-- 
2.43.0


From db43f86fe5b5b3ddb9743b744b5cb5a155472416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 28/36] fix: apply list pattern filters to items and patterns
 that look like integers

---
 gyp/pylib/gyp/input.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 04af4ea..da653f4 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2627,7 +2627,10 @@ def ProcessListFiltersInDict(name, the_dict):
         if regex_key in the_dict:
             for regex_item in the_dict[regex_key]:
                 [action, pattern] = regex_item
-                pattern_re = re.compile(pattern)
+                # What looks like an integer has become an integer.
+                pattern_re = re.compile(
+                    str(pattern) if isinstance(pattern, int) else pattern
+                )
 
                 if action == "exclude":
                     # This item matches an exclude regex, set its value to 0 (exclude).
@@ -2651,6 +2654,8 @@ def ProcessListFiltersInDict(name, the_dict):
                         # Even if the regex matches, nothing will change so continue
                         # (regex searches are expensive).
                         continue
+                    if isinstance(list_item, int):
+                        list_item = str(list_item)
                     if pattern_re.search(list_item):
                         # Regular expression match.
                         list_actions[index] = action_value
-- 
2.43.0


From 5acb2f7124abd67c90164c7f47da5416e6e723a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 29/36] fix: remove the temporary file when writing to it fails

---
 gyp/pylib/gyp/common.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 762ae02..7a5c6ca 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -411,7 +411,15 @@ def WriteOnDiff(filename):
                 raise
 
         def write(self, s):
-            self.tmp_file.write(s.encode("utf-8"))
+            try:
+                self.tmp_file.write(s.encode("utf-8"))
+            except Exception:
+                # Don't leave turds behind.
+                try:
+                    self.tmp_file.close()
+                finally:
+                    os.unlink(self.tmp_path)
+                raise
 
     return Writer()
 
-- 
2.43.0


From ac3fb32d8b5f79a9e51e0e9c7a8c8014deea73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:11 +0000
Subject: [PATCH 30/36] fix: rewrite paths that look like integers

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index da653f4..adfe79c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2208,9 +2208,11 @@ def MakePathRelative(to_file, fro_file, item):
     #   "/' Used when a value is quoted.  If these are present, then we
     #       check the second character instead.
     #
-    if to_file == fro_file or exception_re.match(item):
+    if to_file == fro_file or exception_re.match(str(item)):
         return item
     else:
+        # What looks like an integer has become an integer.
+        item = str(item)
         # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
         # temporary measure. This should really be addressed by keeping all paths
         # in POSIX until actual project generation.
-- 
2.43.0


From 0b0a90f3f0b7132838f0d248ebf25cf1502921af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 31/36] fix: do not take inherited object members for commands
 or aliases

---
 lib/node-gyp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 5e25bf9..5a95348 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -100,7 +100,7 @@ class Gyp extends EventEmitter {
     // create a copy of the argv array with aliases mapped
     argv = this.argv.map((arg) => {
     // is this an alias?
-      if (arg in this.aliases) {
+      if (Object.hasOwn(this.aliases, arg)) {
         arg = this.aliases[arg]
       }
       return arg
@@ -108,7 +108,7 @@ class Gyp extends EventEmitter {
 
     // process the mapped args into "command" objects ("name" and "args" props)
     argv.slice().forEach((arg) => {
-      if (arg in this.commands) {
+      if (Object.hasOwn(this.commands, arg)) {
         const args = argv.splice(0, argv.indexOf(arg))
         argv.shift()
         if (commands.length > 0) {
-- 
2.43.0


From 1fd0384b44909c7749ecbd6dcf692ad3192d1cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 32/36] fix: do not accept the output of a failing Python
 command

---
 lib/find-python.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/find-python.js b/lib/find-python.js
index a71c00c..2125e27 100644
--- a/lib/find-python.js
+++ b/lib/find-python.js
@@ -266,6 +266,9 @@ class PythonFinder {
       this.log.silly('execFile result: err = %j', (err && err.stack) || err)
       this.log.silly('execFile result: stdout = %j', stdout)
       this.log.silly('execFile result: stderr = %j', stderr)
+      if (err) {
+        throw err
+      }
       return stdout.trim()
     } catch (err) {
       this.log.silly('execFile: threw:\n%s', err.stack)
-- 
2.43.0


From ca41ab7847c81ea7a11224f4282a240a80de3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 33/36] fix: pass on options named like inherited object
 members

---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..2b47b3d 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -109,7 +109,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     if (opt === 'argv') {
       return
     }
-    if (opt in gyp.configDefs) {
+    if (Object.hasOwn(gyp.configDefs, opt)) {
       return
     }
     variables[opt.replace(/-/g, '_')] = gyp.opts[opt]
-- 
2.43.0


From 13b6b2a23986995a9cfff2d317a821d3a1aa49fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 34/36] fix: write null options so that gyp can read them

---
 lib/create-config-gypi.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 2b47b3d..1cbb461 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -126,9 +126,10 @@ async function createConfigGypi ({ gyp, buildDir, nodeDir, vsInfo, python }) {
 
   const config = await getCurrentConfigGypi({ gyp, nodeDir, vsInfo, python })
 
-  // ensures that any boolean values in config.gypi get stringified
+  // ensures that any boolean values in config.gypi get stringified, and null
+  // too, which gyp cannot read
   function boolsToString (k, v) {
-    if (typeof v === 'boolean') {
+    if (typeof v === 'boolean' || v === null) {
       return String(v)
     }
     return v
-- 
2.43.0


From 344b26abfc3b05f0fa860f27976b5d10ec3873e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 35/36] fix: install the requested version when falling back to
 a temporary directory

---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..adcb129 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -389,7 +389,7 @@ async function install (gyp, argv) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
       gyp.todo.push({ name: 'remove', args: argv })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From 496e0f39dd8b1041a85af8eeb2e41c8dd4d847fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 36/36] fix: mark a version as installed only after verifying
 its files

---
 lib/install.js | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index adcb129..1c76438 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -171,6 +171,11 @@ async function install (gyp, argv) {
       throw err
     }
 
+    // nothing counts as installed while its files are being replaced
+    if (shouldDownloadTarball) {
+      await fs.rm(path.resolve(devDir, 'installVersion'), { force: true })
+    }
+
     // now download the node tarball
     const tarPath = gyp.opts.tarball
     let extractErrors = false
@@ -257,12 +262,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -276,6 +278,10 @@ async function install (gyp, argv) {
         }
       }
 
+      // everything is verified: write the "installVersion" file
+      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
+
       // copy over the files from the temp tarball extract directory to devDir
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
-- 
2.43.0

