From 9f22248d958a8942edd5e4d766d250ae93c7e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 01/57] fix: file mode clauses only affect the classes they
 name; refuse trailing garbage

Each comma-separated clause now starts from its own set of affected bits (u=r,g=w no longer
grants w to the user), = clears what it replaces, X is honoured and text after a valid clause
is an error.
---
 libff/type.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 0147ec7..f12e114 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -285,7 +285,7 @@ class Mode(Type):
     sort_none = 0
     count = Count.COUNT
 
-    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)$")
+    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)")
 
     MODE_ALL = stat.S_ISUID | stat.S_ISGID | stat.S_ISVTX | \
                stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO
@@ -295,12 +295,12 @@ class Mode(Type):
         """Parse an octal or symbolic file mode.
         """
         # pylint:disable=too-many-branches
-        affected = 0
         result = 0
         for part in value.split(","):
+            affected = 0
             val = 0
 
-            match = cls.regex.match(part)
+            match = cls.regex.fullmatch(part)
             if match is None:
                 raise ValueError(f"unable to parse {value!r}")
 
@@ -332,7 +332,7 @@ class Mode(Type):
                             val |= stat.S_IRUSR | stat.S_IRGRP | stat.S_IROTH
                         elif char == "w":
                             val |= stat.S_IWUSR | stat.S_IWGRP | stat.S_IWOTH
-                        elif char == "x":
+                        elif char == "x" or char == "X" and result & 0o111:
                             val |= stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH
                         elif char == "s":
                             val |= stat.S_ISUID | stat.S_ISGID
@@ -346,12 +346,15 @@ class Mode(Type):
                 affected = cls.MODE_ALL
                 val = int(val, 8)
 
+            # Each clause changes only the bits of the classes it names.
+            if operator == "=":
+                result &= ~affected
             if operator in "+=":
-                result |= val
+                result |= affected & val
             elif operator == "-":
-                result &= ~val
+                result &= ~(affected & val)
 
-        return affected & result
+        return result
 
     @classmethod
     def input(cls, value):
-- 
2.43.0


From c993cd05b6bdc5d86be830b93911f839067395ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 02/57] fix: refuse values that are no boolean words also when
 assertions are disabled

---
 libff/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index f12e114..a80d2db 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -447,7 +447,8 @@ class Boolean(Type):
 
     @classmethod
     def input(cls, value):
-        assert value.lower() in cls.true + cls.false
+        if value.lower() not in cls.true + cls.false:
+            raise ValueError(f"unable to parse {value!r}")
         return value.lower() in cls.true
 
     @classmethod
-- 
2.43.0


From 8468f456a2a23ccb38cf756911bec91a224a5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 03/57] fix: do not change the meaning of regex escapes when
 ignoring case

---
 libff/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/parser.py b/libff/parser.py
index ba70ce7..3eb08f7 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -306,13 +306,14 @@ class Parser(BaseClass):
             else:
                 ignore_case = self.args.case == "ignore"
 
-            if ignore_case:
+            # Lowercasing a regex would change the meaning of escapes like \D or \S.
+            if ignore_case and operator != "~":
                 value = value.lower()
 
             # Pre-compile regular expressions.
             if operator == "~":
                 try:
-                    value = re.compile(value)
+                    value = re.compile(value, re.IGNORECASE if ignore_case else 0)
                 except re.error as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
-- 
2.43.0


From 3a89e9b7b612c2c6decea1b620ea98e6f9a7b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 04/57] fix: calculate sizes exactly

---
 libff/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index 6ef183c..11958fc 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -71,7 +71,9 @@ def parse_size(string):
 
         exp = UNITS.index(prefix)
         base = 1000 if suffix == "B" else 1024
-        return int(float(number) * base ** exp)
+        # Calculate with integers, floats are not exact enough.
+        integer, _, fraction = number.partition(".")
+        return int(integer + fraction) * base ** exp // 10 ** len(fraction)
     else:
         return int(number_in_bytes)
 
-- 
2.43.0


From 365c35f050bced20111d3ff5a40a66dab893eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 05/57] fix: refuse durations with garbage instead of units and
 negative durations

---
 libff/convert.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index 11958fc..28c4123 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -91,22 +91,21 @@ def format_duration(seconds):
         return f"{minutes}m{seconds:02}s"
 
 
-regex_duration = re.compile(r"(\d+)([smhdwMy])?")
+regex_duration = re.compile(r"(\d+)([smhdwMy])")
 
 def parse_duration(string):
     """Convert a human readable duration from a string to seconds.
     """
-    try:
+    # A number without a unit denotes minutes.
+    if string.isdecimal():
         return int(string) * 60
-    except ValueError:
-        pass
 
     duration = 0
     end = 0
     for match in regex_duration.finditer(string):
         if match.start(0) != end:
             raise ValueError(f"unable to parse {string!r}")
-        end = match.end(1) + 1
+        end = match.end()
 
         count, unit = match.groups()
         count = int(count)
-- 
2.43.0


From 362835f280271480ec8c301aa77c1f84891fe1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 06/57] fix: the date and time patterns without separators were
 never used

---
 libff/convert.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index 28c4123..3ad49d9 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -96,6 +96,8 @@ regex_duration = re.compile(r"(\d+)([smhdwMy])")
 def parse_duration(string):
     """Convert a human readable duration from a string to seconds.
     """
+    string = string.strip()
+
     # A number without a unit denotes minutes.
     if string.isdecimal():
         return int(string) * 60
@@ -148,21 +150,18 @@ time_formats = (
     ("time", "%H%M")
 )
 
+time_lengths = {"%Y%m%d%H%M": 12, "%Y%m%d": 8, "%H%M": 4}
+
 def parse_time(string):
     """Convert a date and time or a duration to the corresponding number of seconds. A simple
-       integer or float is taken as seconds since epoch.
+       integer or float that is no date or time is taken as seconds since epoch.
     """
-    # Accept float epoch times but convert them to int.
-    try:
-        # XXX Cython can't handle int(float(string)).
-        number = float(string)
-    except ValueError:
-        pass
-    else:
-        return int(number)
-
     if len(string) >= 4:
         for typ, fmt in time_formats:
+            # Patterns without separators have a fixed length, other numbers are epoch times.
+            if fmt in time_lengths and len(string) != time_lengths[fmt]:
+                continue
+
             try:
                 time_obj = datetime.datetime.strptime(string, fmt)
             except ValueError:
@@ -176,6 +175,15 @@ def parse_time(string):
                         time_obj -= datetime.timedelta(days=1)
                 return int(time_obj.timestamp())
 
+    # Accept float epoch times but convert them to int.
+    try:
+        # XXX Cython can't handle int(float(string)).
+        number = float(string)
+    except ValueError:
+        pass
+    else:
+        return int(number)
+
     try:
         return int(time.time() - parse_duration(string))
     except ValueError as exc:
-- 
2.43.0


From af32140bab9ec755571736d6508fb5ecddb7f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 07/57] fix: refuse OR without operand inside of brackets

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 3eb08f7..1a2e945 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -130,7 +130,7 @@ class Parser(BaseClass):
                 continue
 
             elif token in self.CLOSING_BRACKETS:
-                if not sequences[-1]:
+                if any(not seq for seq in sequences):
                     raise ParserError("empty expression")
                 self.tokens.insert(0, token)
                 return
-- 
2.43.0


From b145d22f673779b4b72ec763bd105a166feb1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 08/57] fix: refuse operators and brackets as --exclude tests
 instead of crashing

---
 libff/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/filter.py b/libff/filter.py
index c8654ee..ef3454d 100644
--- a/libff/filter.py
+++ b/libff/filter.py
@@ -22,6 +22,7 @@ import itertools
 
 from . import BaseClass
 from .parser import Parser
+from .exceptions import UsageError
 
 
 class MatcherParser(Parser):
@@ -63,6 +64,10 @@ class Excluder(Filter):
     # pylint:disable=method-hidden
 
     def __init__(self, context, tokens):
+        for token in tokens:
+            if token in Parser.OPENING_BRACKETS + Parser.CLOSING_BRACKETS or \
+                    token.upper() in ("AND", "OR", "NOT"):
+                raise UsageError(f"-e/--exclude takes a single test, not {token!r}")
         super().__init__(context, Parser(context, tokens))
 
     def test_empty(self, entry):
-- 
2.43.0


From e1e171115fa3903a2ec6763105944a9a302bac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 09/57] fix: unbalanced brackets in the tests were accepted
 together with --depth

---
 libff/arguments.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libff/arguments.py b/libff/arguments.py
index 393057e..e348e3a 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -298,6 +298,16 @@ class ArgumentsPostProcessor:
 
         tests.append("}}")
 
+        # Make sure that the existing tests cannot close the bracket around them.
+        level = 0
+        for test in self.args.tests:
+            if test in ("(", "{{"):
+                level += 1
+            elif test in (")", "}}"):
+                level -= 1
+            if level < 0:
+                raise UsageError(f"unable to parse tests: superfluous closing bracket {test!r}")
+
         if self.args.tests:
             tests.append("{{")
             tests += self.args.tests
-- 
2.43.0


From 9a5cfba09528cd6f3d39a47d5d46d94b1a5697bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 10/57] fix: references to files without directory part or with
 trailing slash, and list attributes as reference

---
 libff/entry.py  | 6 +++++-
 libff/parser.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 791498e..479b329 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -109,7 +109,11 @@ class Entry:
                 relpath = abspath[len(dirname):]
                 break
         else:
-            directory, relpath = split(path)
+            directory, relpath = split(path.rstrip(os.sep))
+            if not directory:
+                directory = "." if relpath else os.sep
+            if not relpath:
+                relpath = "."
 
         start_directory = StartDirectory(args, directory)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
diff --git a/libff/parser.py b/libff/parser.py
index 1a2e945..0813443 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -249,6 +249,9 @@ class Parser(BaseClass):
             raise ExpressionError(f"{attribute} and {ref_attribute} have different types "\
                     "and cannot be compared") from exc
 
+        if not isinstance(ref_type_cls.sort_none, (str, int)):
+            raise ExpressionError(f"{ref_attribute} cannot be used as a reference")
+
         entry = Entry.as_reference(self.args, value)
         return self.registry.get_attribute(entry, ref_attribute)
 
-- 
2.43.0


From c06710f580cba38646e280e24e3970022841dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 11/57] fix: glob patterns: support escapes and all kinds of
 sets, let ** span directories only as a whole component, compare names with
 newlines

---
 libff/ignore.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index e04aa95..c4290f0 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -89,26 +89,44 @@ class Glob:
 
         # Translate the wildcards to regular expression syntax.
         parts = []
-        for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
+        for part in re.split(r"(\\.|/\*\*/|(?:^|(?<=/))\*\*/|/\*\*$|^\*\*$|\*+|\?|"
+                             r"\[[!^]?\]?(?:\\.|[^\]\\])*\])", pattern, flags=re.DOTALL):
             if part == "/**/":
-                part = "(?:/|/.+/)"
+                part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
-                part = "(?:.+/)?"
+                part = "(?:(?s:.+)/)?"
             elif part == "/**":
-                part = "(?:/.+)?"
-            elif part == "*":
+                part = "(?:/(?s:.+))?"
+            elif part == pattern == "**" and anchored:
+                part = "(?s:.+)"
+            elif part.startswith("*"):
                 part = "[^/]*"
             elif part == "?":
                 part = "[^/]"
-            elif part.startswith("[!"):
-                part = f"[^{part[2:-1]}]"
-            elif part.startswith("["):
-                part = f"[{part[1:-1]}]"
+            elif part.startswith("[") and part.endswith("]") and len(part) > 2:
+                part = Glob.translate_set(part)
+            elif part.startswith("\\"):
+                part = re.escape(part[1:] or part)
             else:
                 part = re.escape(part)
             parts.append(part)
 
-        return "^" + "".join(parts) + "$", include, anchored, directory
+        return "^" + "".join(parts) + r"\Z", include, anchored, directory
+
+    @staticmethod
+    def translate_set(part):
+        """Translate a set of characters like [a-z] or [!a-z], which never matches a slash.
+        """
+        start = 2 if part[1] in "!^" else 1
+        chars = "".join(char if char == "-" else re.escape(char[-1])
+                for char in re.findall(r"\\.|.", part[start:-1], re.DOTALL))
+        part = f"(?!/)[{'^' if start == 2 else ''}{chars}]"
+        try:
+            re.compile(part)
+        except re.error:
+            # An invalid range matches nothing.
+            part = "(?!)"
+        return part
 
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
-- 
2.43.0


From 533d06a933026fa3a065eca9b22a209b5576976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 12/57] fix: -I missed ignore files in the parent directory of
 the start directory

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index f5cc1a2..01ad094 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -162,7 +162,7 @@ class _Base(BaseClass):
                 # Find ignore files in parent directories.
                 if self.context.args.ignore:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            os.path.dirname(path))
+                            path)
                 else:
                     ignores = []
 
-- 
2.43.0


From 64cb6727103d97b8ea55cb5b106d898631f47a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 13/57] fix: ignore files that are no valid UTF-8 crashed the
 ignore plugin

---
 libff/ignore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index c4290f0..97b4204 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -187,7 +187,7 @@ class GitIgnore:
         self.path = join(dirname, name)
 
         # pylint:disable=unspecified-encoding
-        with open(self.path) as lines:
+        with open(self.path, errors="surrogateescape") as lines:
             self.lines = list(lines)
 
         # Collect the glob patterns from the gitignore file and translate them to regular
-- 
2.43.0


From 4b9ff0929ea9a79cb1c6cffe508adaf21a1109ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 14/57] fix: mount attributes of mountpoints themselves and of
 mountpoints with special characters

---
 libff/entry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 479b329..066aa1b 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import grp
 import pwd
 import stat
@@ -41,21 +42,27 @@ class Mountpoints:
         self.entries = []
         try:
             # pylint:disable=unspecified-encoding
-            with open("/proc/mounts") as lines:
+            with open("/proc/mounts", errors="surrogateescape", newline="\n") as lines:
                 for line in lines:
-                    devname, mpath, fstype, _ = line.split(None, 3)
+                    devname, mpath, fstype = map(self.unescape, line.split(" ", 3)[:3])
                     self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
         except OSError:
             pass
         else:
             self.entries.sort(reverse=True)
 
+    @staticmethod
+    def unescape(field):
+        """Replace the octal escapes for white space and backslashes in a field.
+        """
+        return re.sub(r"\\([0-7]{3})", lambda match: chr(int(match.group(1), 8)), field)
+
     @lru_cache(maxsize=512)
     def get(self, path):
         """Get the mountpoint, device name and filesystem type for path.
         """
         for mpath, devname, fstype in self.entries:
-            if mpath == path or path.startswith(mpath):
+            if mpath == path + os.sep or path.startswith(mpath):
                 return mpath, devname, fstype
         return os.sep, "root_device", "rootfs"
 
-- 
2.43.0


From 6c19fac99d95955cf75474ed94c0d6745fb97a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 15/57] fix: find trailing directory arguments also after
 leading ones; // is the root directory

---
 libff/arguments.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index e348e3a..e4e7dcc 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -245,14 +245,12 @@ class ArgumentsPostProcessor:
             # Check which arguments are existing directories and append them to
             # self.args.directories. We allow directory arguments only at the start or the end of
             # the list of tests.
-            for tests in (list(self.args.tests), reversed(self.args.tests)):
-                for test in tests:
-                    if os.sep in test and os.path.isdir(test):
-                        self.args.tests.remove(test)
-                        directory = os.path.normpath(test)
-                        self.args.directories.append(directory)
-                    else:
-                        break
+            tests = list(self.args.tests)
+            for pos in (0, -1):
+                while tests and os.sep in tests[pos] and os.path.isdir(tests[pos]):
+                    directory = os.path.normpath(tests.pop(pos))
+                    self.args.directories.append(directory)
+            self.args.tests = tests
 
         # Default to the current directory if no directory arguments are specified or detected.
         if not self.args.directories:
@@ -268,7 +266,8 @@ class ArgumentsPostProcessor:
                 # different mount. We should take this into account here.
                 abs_directory = os.path.abspath(directory)
                 abs_subdir = os.path.abspath(subdir)
-                if os.path.commonpath([abs_directory, abs_subdir]) == abs_subdir:
+                if os.path.commonpath([abs_directory, abs_subdir]) == \
+                        os.path.commonpath([abs_subdir]):
                     raise UsageError(f"{directory!r} is a sub-directory of {subdir!r}")
 
     def process_depth_argument(self):
-- 
2.43.0


From cc3ef35fb86be58bf936d72ea0bee00af474244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 16/57] fix: the device of a start directory is that of the
 directory a symbolic link points to

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 066aa1b..b00d1fa 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -84,7 +84,8 @@ class StartDirectory:
     def __init__(self, args, root):
         self.root = root
         self.absroot = os.path.abspath(root)
-        self.status = os.stat(self.root, follow_symlinks=args.follow_symlinks)
+        # The start directory is searched even if it is a symbolic link.
+        self.status = os.stat(self.root)
         self.device = self.status.st_dev
 
 
-- 
2.43.0


From ab61859d3f2ae7b8e672f6631cae3f45ec38f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 17/57] fix: refuse start directories that do not exist instead
 of crashing

---
 libff/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 01ad094..41861f6 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -173,7 +173,12 @@ class _Base(BaseClass):
                     self.logger.debug("info",
                             f"    found ignorefile in parent: {ignore}")
 
-            walker.put([Directory(StartDirectory(self.context.args, path), "", ignores)])
+            try:
+                start_directory = StartDirectory(self.context.args, path)
+            except OSError as exc:
+                raise UsageError(str(exc)) from exc
+
+            walker.put([Directory(start_directory, "", ignores)])
 
     def setup(self, args, error=None, warnings=None):
         """Set up context, components, processing and walkers.
-- 
2.43.0


From 9e4f6c7512a8f40a8653bb801caba6f7a7f826ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 18/57] fix: sets of strings could not be sorted

---
 libff/type.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/type.py b/libff/type.py
index a80d2db..bc34259 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -240,6 +240,11 @@ class ListOfStrings(Type):
             return False
         return all(isinstance(v, type(String.sort_none)) for v in value)
 
+    @classmethod
+    def sort_key(cls, value):
+        # Sets have no order.
+        return sorted(value) if isinstance(value, set) else value
+
 
 class Number(Type):
     """Simple number. Examples: 'file.uid=1000' 'file.links+=2'
-- 
2.43.0


From 80957e35eacd6fee4e55ffe497b8276613df7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 19/57] fix: natural sort order: compare components on their
 own, accept missing values, values of all types and all digits

---
 libff/field.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 79121de..8307547 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -140,28 +140,28 @@ class SortFields(OutputFields):
             component = comp
             extensions.insert(0, ext)
 
-        # Split the component into string and number parts. Make sure the list starts with a
-        # string.
+        # Split the component into alternating string and number parts. The list always starts with
+        # a string.
         parts = self.regex_digits.split(component)
-        if parts[0].isdigit():
-            parts.insert(0, "")
 
         # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdigit() else p for p in parts]
+        yield [int(p) if i % 2 else p for i, p in enumerate(parts)]
 
         # Yield extensions separately.
         if extensions:
             yield extensions
 
     def prepare_sort_key(self, value):
-        """Prepare a sort key from a path for natural/version sorting.
+        """Prepare a sort key from a value for natural/version sorting.
         """
-        # Split a full path in its components and prepare each component separately. This should
-        # produce output similar to natsort.os_sort_key().
-        cmp_key = []
-        for component in os.path.normpath(value).split(os.sep):
-            cmp_key += list(self.prepare_component(component))
-        return cmp_key
+        if isinstance(value, str):
+            # Split a full path in its components and prepare each component separately. This
+            # should produce output similar to natsort.os_sort_key().
+            return [list(self.prepare_component(component)) for component in value.split(os.sep)]
+        elif isinstance(value, list):
+            return [self.prepare_sort_key(v) for v in value]
+        else:
+            return value
 
     def render(self, entry):
         """Create a sort key from an Entry object.
@@ -171,12 +171,12 @@ class SortFields(OutputFields):
             try:
                 value = self.registry.get_attribute(entry, field.attribute)
             except KeyError:
-                output.append(field.type.sort_none)
+                value = field.type.sort_none
             else:
                 value = field.type.sort_key(value)
-                if field.modifier == "v":
-                    value = self.prepare_sort_key(value)
-                output.append(value)
+            if field.modifier == "v":
+                value = self.prepare_sort_key(value)
+            output.append(value)
         return tuple(output)
 
 
-- 
2.43.0


From 8491f26dbcd63ae8650bd62bcb6c2aca50120f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 20/57] fix: always print the total number of entries with
 --count

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 58cf6a6..fc0c9d3 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -220,7 +220,7 @@ class CollectiveMixin(BaseProcessing):
 
         self.out_queue = multiprocessing.Queue()
         self.entries = []
-        self.count = collections.Counter()
+        self.count = collections.Counter(_total=0)
 
     def process(self, entries):
         self.out_queue.put(entries)
-- 
2.43.0


From 080114bf268f1071cc9ea06b7db42fd843c2dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 21/57] fix: print count statistics of any mixture of values

---
 libff/processing.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index fc0c9d3..7d0bdf2 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -329,11 +329,29 @@ class CollectiveMixin(BaseProcessing):
         else:
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
-                    for k, v in sorted(value.items(),
-                            key=lambda t: int(t[0]) if t[0].isdigit() else t[0]):
-                        print(f"{key}[{k}]={v}")
+                    for k, v in sorted(value.items(), key=self.count_sort_key):
+                        self.print_line(f"{key}[{k}]={v}")
                 else:
-                    print(f"{key}={value}")
+                    self.print_line(f"{key}={value}")
+
+    @staticmethod
+    def count_sort_key(item):
+        """Return a sort key for a (value, count) pair, numbers come first.
+        """
+        if item[0].isdecimal():
+            return (0, int(item[0]), item[0])
+        else:
+            return (1, 0, item[0])
+
+    @staticmethod
+    def print_line(line):
+        """Print a line of output handling encoding errors.
+        """
+        try:
+            print(line)
+        except UnicodeEncodeError:
+            encoding = sys.stdout.encoding
+            print(line.encode(encoding, "backslashreplace").decode(encoding))
 
 
 class CollectiveConsoleProcessing(CollectiveMixin, BaseConsoleProcessing):
-- 
2.43.0


From d180d3847c4b5ab8f63ba61c4bb8b3d8c1355a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 22/57] fix: print directories, symbolic links and executables
 in colour mode without LS_COLORS

---
 libff/console.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index dd25215..78a9f41 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -261,8 +261,10 @@ class ColorConsole(Console):
     def __init__(self, context):
         super().__init__(context)
 
-        self.colors = {}
+        # Everything is printed without colors unless there is a rule for it.
+        self.colors = dict.fromkeys(("di", "ex", "ln", "or"))
         self.extensions = {}
+        self.reset = ""
         rules = {}
 
         def esc(seq):
-- 
2.43.0


From dab90f7ec84cf8259f7ff8d2d3a9601f13b4ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 23/57] fix: don't take the LS_COLORS value 'target' for an
 escape sequence

---
 libff/console.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 78a9f41..74e6730 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -296,7 +296,8 @@ class ColorConsole(Console):
         # Prepare escape sequences for directories, executables, symlinks and orphans. There are
         # some more we might add in the future.
         for rule in ("di", "ex", "ln", "or"):
-            if rule in rules:
+            # The value "target" for symlinks (see dir_colors(5)) is no escape sequence.
+            if rule in rules and rules[rule] != "target":
                 self.colors[rule] = (esc(rules[rule]), self.reset)
             else:
                 self.colors[rule] = None
-- 
2.43.0


From d0a2ba83d54f890e1efe6b975c0bbf37d895545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 24/57] fix: print sets of strings with --json

---
 libff/console.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 74e6730..05661c8 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -75,10 +75,18 @@ class JsonlConsole(BaseConsole):
         """
         self.print_record(self.fields.to_dict(entry))
 
+    @staticmethod
+    def encode(value):
+        """Convert a value that JSON has no type for, ListOfStrings allows sets.
+        """
+        if isinstance(value, set):
+            return sorted(value)
+        raise TypeError(f"object of type {value.__class__.__name__} is not JSON serializable")
+
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout)
+        json.dump(record, sys.stdout, default=self.encode)
         print()
         sys.stdout.flush()
 
@@ -98,7 +106,7 @@ class JsonConsole(JsonlConsole):
         """
         if self.print_comma:
             print(",", end="")
-        json.dump(record, sys.stdout)
+        json.dump(record, sys.stdout, default=self.encode)
         self.print_comma = True
 
     def close(self):
-- 
2.43.0


From a651c81a0273a21d22fd5ba9edede2c90fe42b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 25/57] fix: report entries that are too long for --exec-batch
 instead of dropping them and all that follow

---
 libff/processing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 7d0bdf2..a7906d8 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -392,7 +392,13 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                     if process.returncode != 0:
                         self.context.set_exitcode(EX_SUBPROCESS)
                 except OSError as exc:
-                    if exc.errno == errno.E2BIG:
+                    if exc.errno == errno.E2BIG and len(entries) == 1:
+                        # There is nothing left to split, go on with the other entries.
+                        self.logger.error(f"{entries[0].path}: {exc}", None)
+                        self.context.set_exitcode(EX_SUBPROCESS)
+                        entries = remainder
+                        remainder = []
+                    elif exc.errno == errno.E2BIG:
                         # As long as the command line is too long to pass to a subprocess, split
                         # the list of entries list in two and try again. This is much easier than
                         # to come up with a reliable heuristic based on SC_ARG_MAX, which is the
-- 
2.43.0


From 1fda0ddeed69e223b7b59ecd8a2374e924e237cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 26/57] fix: do not drop the cache tables of other plugins

---
 libff/cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9a814f2..d545e0d 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -108,13 +108,14 @@ class Cache(NullCache):
         """Check if there is already a table for this plugin in the database. Also drop tables from
            older versions of this plugin.
         """
-        # Ask the database if a table exists for this plugin.
-        curs = self.conn.execute(
-                "select name from sqlite_master where type = 'table' and name like ?",
-                (plugin_cls.sql_table_name.rstrip(string.digits) + "%",))
+        # Ask the database which tables exist for this plugin. The names of the tables differ in the
+        # version number at the end only. Tables of plugins that share a prefix must be left alone.
+        prefix = plugin_cls.sql_table_name.rstrip(string.digits)
+        curs = self.conn.execute("select name from sqlite_master where type = 'table'")
+        tables = set(name for name, in curs
+                if name.startswith(prefix) and name[len(prefix):].isdecimal())
 
         # Create a table if there is none for this plugin.
-        tables = set(row[0] for row in curs)
         if plugin_cls.sql_table_name not in tables:
             for statement in self.get_sql_create_table(plugin_cls):
                 self.conn.execute(statement)
-- 
2.43.0


From 107d132033e020ec5a4c69a593745dad10488c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 27/57] fix: use the real name of a file as the cache key

---
 libff/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index d545e0d..af5eacd 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -139,7 +139,7 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
         for row in self.conn.execute(
@@ -154,7 +154,7 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From f89a09fddf9914ab18b42bee028511800525d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 28/57] fix: --clean-cache crashed as soon as there was
 something to remove

---
 libff/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index af5eacd..4706a94 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -197,8 +197,9 @@ class Cache(NullCache):
         """
         for table, in self.conn.execute("select name from sqlite_master where type = 'table'"):
             for path, in self.conn.execute(f"select path from {table}"):
-                if not os.path.exists(path):
+                if not os.path.lexists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
-        self.conn.execute("vacuum")
+        # The vacuum statement is not allowed inside a transaction.
         self.conn.commit()
+        self.conn.execute("vacuum")
-- 
2.43.0


From fcdc430b3fa9ce17c4b8c6d03d9d1fada3c97713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 29/57] fix: refuse invalid option values instead of crashing,
 check choices

---
 libff/argparse.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 576e1d9..0a756c2 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -420,7 +420,7 @@ class ArgumentParser:
         if not argv:
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
@@ -428,7 +428,21 @@ class ArgumentParser:
         if not argv or argv[0].startswith("-"):
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
+
+    def convert_argument(self, option, string):
+        """Convert the argument to the type of the option and check whether it is valid.
+        """
+        try:
+            value = option.type(string)
+        except ValueError as exc:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr}") from exc
+
+        if option.choices is not None and value not in option.choices:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr} (choose from " \
+                    f"{', '.join(option.choices)})")
+
+        return value
 
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
-- 
2.43.0


From 3682903e841f2f0938f0e285e2d58c1307b63e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 30/57] fix: bundled and attached option values

---
 libff/argparse.py | 61 +++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 0a756c2..270fa63 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -192,6 +192,11 @@ class Option:
             else:
                 raise ArgumentError(f"invalid option {string!r}")
 
+    def takes_argument(self):
+        """Return True if the option accepts an argument.
+        """
+        return self.action in ("store", "store_optional", "append", "store_remainder")
+
     @property
     def repr(self):
         """Return a representation of the option.
@@ -352,37 +357,29 @@ class ArgumentParser:
         """Disassemble a bundle of short options.
         """
         arg = argv.pop(0)[1:]
-        i = 0
         while arg:
-            short_option = f"-{arg[0]}"
-            option = self.get_option(short_option)
+            option = self.get_option(f"-{arg[0]}")
+            arg = arg[1:]
 
-            if option.action in ("store", "store_optional", "append"):
-                argv.insert(i, short_option)
-                argv.insert(i + 1, arg[1:])
+            if arg and option.takes_argument():
+                # The rest of the bundle is the argument of this option.
+                argv.insert(0, arg)
+                self.parse_option(option, argv, attached=True)
                 break
-            else:
-                argv.insert(i, short_option)
 
-            arg = arg[1:]
-            i += 1
-        return argv
+            self.parse_option(option, argv)
 
     def parse_long_option_with_value(self, argv):
         """Parse a long option with an attached argument.
         """
-        arg = argv.pop(0)
-
-        long_option, value = arg.split("=", 1)
+        long_option, value = argv.pop(0).split("=", 1)
         option = self.get_option(long_option)
 
-        if option.action in ("store", "store_optional", "append"):
-            argv.insert(0, long_option)
-            argv.insert(1, value)
-        else:
+        if not option.takes_argument():
             raise ArgumentError(f"option {long_option} does not take an argument")
 
-        return argv
+        argv.insert(0, value)
+        self.parse_option(option, argv, attached=True)
 
     def parse_args(self, argv):
         """Parse a list of command line arguments.
@@ -398,13 +395,14 @@ class ArgumentParser:
                 if arg.startswith("-"):
                     if arg[:2] != "--" and len(arg) > 2:
                         # This is not a long option but a bundle of short options.
-                        argv = self.parse_combined_short_options(argv)
+                        self.parse_combined_short_options(argv)
 
                     elif arg[:2] == "--" and "=" in arg:
                         # This is a long option with an attached argument.
-                        argv = self.parse_long_option_with_value(argv)
+                        self.parse_long_option_with_value(argv)
 
-                    self.parse_option(argv)
+                    else:
+                        self.parse_option(self.get_option(argv.pop(0)), argv)
 
                 else:
                     self.parse_arguments(argv)
@@ -422,14 +420,6 @@ class ArgumentParser:
         else:
             return self.convert_argument(option, argv.pop(0))
 
-    def get_optional_argument(self, option, argv):
-        """Fetch an optional argument from the argument list.
-        """
-        if not argv or argv[0].startswith("-"):
-            raise ArgumentError(f"{option.repr} requires an argument")
-        else:
-            return self.convert_argument(option, argv.pop(0))
-
     def convert_argument(self, option, string):
         """Convert the argument to the type of the option and check whether it is valid.
         """
@@ -444,11 +434,10 @@ class ArgumentParser:
 
         return value
 
-    def parse_option(self, argv):
-        """Parse a single option and act according to its action.
+    def parse_option(self, option, argv, attached=False):
+        """Parse a single option and act according to its action. If attached is True, the first
+           item in argv is an argument that is attached to the option and belongs to it in any case.
         """
-        option = self.get_option(argv.pop(0))
-
         if option.action == "store_true":
             self.namespace.set(option.dest, True)
 
@@ -462,8 +451,8 @@ class ArgumentParser:
             self.namespace.set(option.dest, self.get_argument(option, argv))
 
         elif option.action == "store_optional":
-            if argv and not argv[0].startswith("-"):
-                self.namespace.set(option.dest, self.get_optional_argument(option, argv))
+            if attached or argv and not argv[0].startswith("-"):
+                self.namespace.set(option.dest, self.get_argument(option, argv))
             else:
                 self.namespace.set(option.dest, option.type(option.const))
 
-- 
2.43.0


From a225aa0c681d4e649115314ab0f8abf2d9a370be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 31/57] fix: refuse unparsable FF_OPTIONS instead of crashing

---
 libff/arguments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index e4e7dcc..1caf9ef 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -346,7 +346,11 @@ def parse_arguments():
     """
     parser = create_parser()
 
-    argv = collect_arguments()
+    try:
+        argv = collect_arguments()
+    except ValueError as exc:
+        parser.error(f"unable to parse FF_OPTIONS: {exc}")
+
     args = parser.parse_args(argv)
 
     if args.help == "all":
-- 
2.43.0


From b4d25a69079f6b85aef1dee417042afbea0b614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 32/57] fix: content plugins and ignore files open regular
 files only

---
 libff/builtin/media.py | 2 ++
 libff/ignore.py        | 6 ++++++
 plugins/introspect.py  | 4 +++-
 plugins/tar.py         | 6 ++++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libff/builtin/media.py b/libff/builtin/media.py
index 043220d..b1cf1fa 100644
--- a/libff/builtin/media.py
+++ b/libff/builtin/media.py
@@ -74,6 +74,8 @@ class Medium(Plugin):
             raise NoData from exc
 
     def can_handle(self, entry):
+        if not entry.is_file():
+            return False
         mimetype = mimetypes.guess_type(entry.name)[0]
         if not mimetype:
             return False
diff --git a/libff/ignore.py b/libff/ignore.py
index 97b4204..e7fd0ef 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -19,6 +19,8 @@
 # -----------------------------------------------------------------------
 
 import os
+import errno
+import stat
 import re
 import collections
 
@@ -186,6 +188,10 @@ class GitIgnore:
         self.dirname = dirname
         self.path = join(dirname, name)
 
+        # Do not open anything that is not a file, we would block on a named pipe.
+        if not stat.S_ISREG(os.stat(self.path).st_mode):
+            raise OSError(errno.EINVAL, "Not a regular file", self.path)
+
         # pylint:disable=unspecified-encoding
         with open(self.path, errors="surrogateescape") as lines:
             self.lines = list(lines)
diff --git a/plugins/introspect.py b/plugins/introspect.py
index f03604e..a0980b0 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -144,6 +144,8 @@ class Py(Plugin):
                 yield node.names[0].name
 
     def can_handle(self, entry):
+        if not entry.is_file():
+            return False
         if entry.ext.lower() == "py":
             return True
         shebang = Shebang.extract_shebang(entry.path)
@@ -152,5 +154,5 @@ class Py(Plugin):
     def process(self, entry, cached):
         try:
             yield "imports", sorted(self.parse_imports(entry))
-        except (OSError, SyntaxError, UnicodeDecodeError) as exc:
+        except (OSError, SyntaxError, ValueError, MemoryError, RecursionError) as exc:
             raise NoData from exc
diff --git a/plugins/tar.py b/plugins/tar.py
index 006867a..fcc6e8a 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -18,7 +18,9 @@
 #
 # -----------------------------------------------------------------------
 
+import lzma
 import tarfile
+import zlib
 
 from libff.plugin import *
 
@@ -46,13 +48,13 @@ class Tar(Plugin):
             ".tar.xz", ".txz")
 
     def can_handle(self, entry):
-        return entry.name.endswith(self.extensions)
+        return entry.is_file() and entry.name.endswith(self.extensions)
 
     def cache(self, entry):
         try:
             with tarfile.open(entry.path) as tar:
                 return set(name for name in tar.getnames())
-        except (OSError, EOFError) as exc:
+        except (OSError, EOFError, tarfile.TarError, zlib.error, lzma.LZMAError) as exc:
             raise NoData from exc
 
     def process(self, entry, cached):
-- 
2.43.0


From 75f80c8200d9802d5c1f97efd8c33616e75124db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 33/57] fix: shake_128 and shake_256 need a digest length

---
 plugins/hash.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/hash.py b/plugins/hash.py
index 193670a..a12126c 100644
--- a/plugins/hash.py
+++ b/plugins/hash.py
@@ -29,6 +29,9 @@ class _Hash(Plugin):
 
     use_cache = True
 
+    # These algorithms have no fixed digest length, so we use the same defaults as openssl(1).
+    digest_lengths = {"shake_128": 16, "shake_256": 32}
+
     def can_handle(self, entry):
         return entry.is_file()
 
@@ -38,6 +41,8 @@ class _Hash(Plugin):
             with open(entry.path, "rb") as fobj:
                 while buf := fobj.read(8192):
                     h.update(buf)
+            if self.name in self.digest_lengths:
+                return self.name, h.hexdigest(self.digest_lengths[self.name])
             return self.name, h.hexdigest()
         except (OSError, EOFError) as exc:
             raise NoData from exc
-- 
2.43.0


From 90a8984f7ad0f6be7d8bf54d9626401809488496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 34/57] fix: grep.lines without line ends

---
 libff/builtin/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/builtin/grep.py b/libff/builtin/grep.py
index 0cca127..ead857a 100644
--- a/libff/builtin/grep.py
+++ b/libff/builtin/grep.py
@@ -40,7 +40,7 @@ class Grep(Plugin):
             # pylint:disable=unspecified-encoding
             with open(entry.path) as fobj:
                 try:
-                    lines = fobj.readlines()
+                    lines = [line.rstrip("\n") for line in fobj]
                 except UnicodeDecodeError:
                     yield "text", False
                 else:
-- 
2.43.0


From bfff38e9208537941ebe911db558678862c00ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 35/57] fix: shebang only in the first line, all names of an
 import statement, relative imports

---
 plugins/introspect.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index a0980b0..999c945 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -93,10 +93,10 @@ class Shebang(Plugin):
         """Extract the shebang line.
         """
         try:
-            with open(path, "rb") as lines:
-                for line in lines:
-                    if line.startswith(b"#!"):
-                        return line[2:].decode("ascii").rstrip()
+            with open(path, "rb") as fobj:
+                line = fobj.readline()
+                if line.startswith(b"#!"):
+                    return line[2:].decode("ascii").rstrip()
         except (OSError, UnicodeDecodeError):
             pass
 
@@ -131,17 +131,17 @@ class Py(Plugin):
             if isinstance(node, ast.ImportFrom):
                 if node.module is not None:
                     if node.level > 0:
-                        parts = [node.module]
-                        dirname = entry.dir
-                        for _ in range(node.level):
-                            dirname, basename = os.path.split(dirname)
-                            parts.insert(0, basename)
-                        yield ".".join(parts)
+                        # Every level after the first one stands for a parent directory.
+                        dirname = os.path.dirname(entry.abspath)
+                        for _ in range(node.level - 1):
+                            dirname = os.path.dirname(dirname)
+                        yield f"{os.path.basename(dirname)}.{node.module}"
                     else:
                         yield node.module
 
             elif isinstance(node, ast.Import):
-                yield node.names[0].name
+                for alias in node.names:
+                    yield alias.name
 
     def can_handle(self, entry):
         if not entry.is_file():
-- 
2.43.0


From f98fb8322e1e852eb6f71576d3c48f268121e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 36/57] fix: git plugin: names that git quotes, renamed files

---
 plugins/git.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 4f3c12a..654d910 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -31,10 +31,12 @@ class Filelist(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "ls-files"], capture_output=True, text=True,
+        # The names are only unquoted if they are null-terminated.
+        proc = subprocess.run(["git", "-C", dirname, "ls-files", "-z"], capture_output=True,
                 check=False)
-        for filename in proc.stdout.splitlines():
-            self.add(os.path.join(dirname, filename))
+        for filename in os.fsdecode(proc.stdout).split("\0"):
+            if filename:
+                self.add(os.path.join(dirname, filename))
 
 
 class Status(set):
@@ -44,13 +46,12 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain"], capture_output=True,
-                text=True, check=False)
-        for line in proc.stdout.splitlines():
-            status, filename = line.split(None, 1)
-            if status == "??":
-                continue
-            self.add(os.path.join(dirname, filename))
+        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "-z", "--no-renames"],
+                capture_output=True, check=False)
+        for line in os.fsdecode(proc.stdout).split("\0"):
+            # Every line consists of two status characters, a space and the filename.
+            if line and not line.startswith("??"):
+                self.add(os.path.join(dirname, line[3:]))
 
 
 class Git(Plugin):
-- 
2.43.0


From 4fe2a0092111f07471ce4cbc19cdda65f41e0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 37/57] fix: don't stop before queued work has arrived

---
 libff/walk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/walk.py b/libff/walk.py
index 16e31e2..1ad459f 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -91,7 +91,9 @@ class FilesystemWalker(BaseClass):
                 try:
                     objs = self.queue.get(timeout=TIMEOUT)
                 except queue.Empty:
-                    if self.context.barrier_wait():
+                    # Objects that were just put in the queue may take a moment until they arrive,
+                    # but qsize() counts them right away.
+                    if self.queue.qsize() == 0 and self.context.barrier_wait():
                         break
                     else:
                         continue
-- 
2.43.0


From 81f437e774895791f16dd01c588f4186cf0b15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 38/57] fix: don't lose results that arrive late, notice
 processes that died

---
 libff/context.py    |  5 ++--
 libff/processing.py | 57 +++++++++++++++++++++------------------------
 libff/walk.py       | 10 ++++++++
 3 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index 174304a..1d69106 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -67,11 +67,12 @@ class Context:
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
 
-        # Create a Barrier with the number of processes plus one for the main process.
+        # Create a Barrier with the number of processes. The main process does not take part, so it
+        # can take action if one of the others is missing.
         if __debug__ and self.args.profile:
             num_jobs = 1
         else:
-            num_jobs = self.args.jobs + 1
+            num_jobs = self.args.jobs
         self.barrier = multiprocessing.Barrier(num_jobs)
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
diff --git a/libff/processing.py b/libff/processing.py
index a7906d8..8fa5cab 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -105,7 +105,7 @@ class BaseProcessing(BaseClass):
 
         if time.time() >= self.next_processes_check:
             for index, process in enumerate(self.walker.processes):
-                if not process.is_alive():
+                if process.exitcode not in (None, 0):
                     self.logger.warning(f"process #{index} terminated abnormally")
                     self.context.set_exitcode(EX_PROCESS)
                     self.context.stop()
@@ -116,10 +116,27 @@ class BaseProcessing(BaseClass):
         return False
 
     def processing_done(self, timeout=TIMEOUT):
-        """Check if processing is done (because all processes wait on the barrier) or one or more
-           processes failed unexpectedly.
+        """Check if processing is done (because all processes have finished or are supposed to
+           stop) or one or more processes failed unexpectedly.
         """
-        return self.context.barrier_wait(timeout) or self.check_for_failed_processes()
+        return self.context.is_stopping() or self.walker.wait(timeout) or \
+                self.check_for_failed_processes()
+
+    def collect(self, out_queue):
+        """Yield the chunks of Entry objects from the queue until processing is done.
+        """
+        done = False
+        while True:
+            try:
+                entries = out_queue.get(timeout=TIMEOUT)
+            except queue.Empty:
+                # The queue may have been filled between get() and processing_done(), so look once
+                # more.
+                if done:
+                    break
+                done = self.processing_done()
+            else:
+                yield entries
 
     def process(self, entries):
         """Process a chunk of Entry objects.
@@ -235,15 +252,7 @@ class CollectiveMixin(BaseProcessing):
             return self.entries[start:stop]
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.collect(self.out_queue):
             if self.args.count is not None:
                 self.collect_count(entries)
 
@@ -435,15 +444,9 @@ class ImmediateGenerator(ImmediateBaseProcessing):
         self.out_queue.put(entries)
 
     def __iter__(self):
-        while True:
-            try:
-                for entry in self.out_queue.get(timeout=TIMEOUT):
-                    yield self.args.output.to_dict(entry)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
+        for entries in self.collect(self.out_queue):
+            for entry in entries:
+                yield self.args.output.to_dict(entry)
 
 
 class CollectiveGenerator(ImmediateGenerator):
@@ -456,15 +459,7 @@ class CollectiveGenerator(ImmediateGenerator):
         self.entries = []
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.collect(self.out_queue):
             self.entries += entries
 
     def finalize(self):
diff --git a/libff/walk.py b/libff/walk.py
index 1ad459f..764e3d3 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -54,6 +54,16 @@ class FilesystemWalker(BaseClass):
 
         self.queue.close()
 
+    def wait(self, timeout):
+        """Wait up to timeout seconds for the processes to terminate and return True if all of them
+           did.
+        """
+        for process in self.processes:
+            process.join(timeout)
+            if process.exitcode is None:
+                return False
+        return True
+
     def put(self, chunk):
         """Put a chunk of objects in the queue for processing by the FilesystemWalker. Either these
            objects are Directory objects for searching or lists of arguments from an
-- 
2.43.0


From 1c3f7ec6c6bee7562c53cd196ccd7676aa803817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 39/57] fix: terminate all processes when the results of Find
 are not used up

---
 libff/find.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libff/find.py b/libff/find.py
index 506b968..85f1749 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -125,9 +125,13 @@ class Find(_Base):
 
             yield from self.context.processing
 
-        except KeyboardInterrupt:
-            # Stop all processes immediately.
+        except BaseException:
+            # Stop all processes immediately, e.g. because of a KeyboardInterrupt or because the
+            # caller abandoned the iteration. We can't wait for them to stop by themselves, because
+            # there is no one left to take their results.
             self.context.stop()
+            for process in self.context.walker.processes:
+                process.terminate()
             raise
 
         self.context.close()
-- 
2.43.0


From a57958c01795ad22d9e402c51fa25d4888b0bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 40/57] fix: don't mix up large records printed by several
 processes

---
 libff/console.py | 30 +++++++++++++++++-------------
 libff/context.py |  4 ++++
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 05661c8..78f4dfc 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -86,9 +86,10 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout, default=self.encode)
-        print()
-        sys.stdout.flush()
+        with self.context.output_lock:
+            json.dump(record, sys.stdout, default=self.encode)
+            print()
+            sys.stdout.flush()
 
 
 class JsonConsole(JsonlConsole):
@@ -249,16 +250,19 @@ class Console(BaseConsole):
     def _write_line(self, line):
         """Print a line of output handling encoding errors.
         """
-        try:
-            print(line, end=self.args.newline)
-        except UnicodeEncodeError:
-            print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
-                    end=self.args.newline)
-
-        # If we don't flush stdout, printed results may be lost. That is because when the main
-        # process exits, all multiprocessing processes vanish instantly without pending output
-        # buffers being written.
-        sys.stdout.flush()
+        # Large records are written in more than one piece, prevent other processes from writing in
+        # between.
+        with self.context.output_lock:
+            try:
+                print(line, end=self.args.newline)
+            except UnicodeEncodeError:
+                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
+                        end=self.args.newline)
+
+            # If we don't flush stdout, printed results may be lost. That is because when the main
+            # process exits, all multiprocessing processes vanish instantly without pending output
+            # buffers being written.
+            sys.stdout.flush()
 
 
 class ColorConsole(Console):
diff --git a/libff/context.py b/libff/context.py
index 1d69106..0115ca6 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -47,6 +47,7 @@ class Context:
         self.processing = None
 
         self.global_lock = None
+        self.output_lock = None
         self.stop_queue = None
         self.barrier = None
         self.exitcode_object = None
@@ -63,6 +64,9 @@ class Context:
         """
         self.global_lock = multiprocessing.Lock()
 
+        # Records are printed by several processes at the same time.
+        self.output_lock = multiprocessing.Lock()
+
         # We use a Queue object to emulate a stop event, because multiprocessing.Event did not work
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
-- 
2.43.0


From 5b0d54923c111d2240ebac84cab5752445457b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 41/57] fix: set up plugins for every Find object, with its own
 cache

---
 libff/cache.py    | 4 ++--
 libff/registry.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 4706a94..8666ecc 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -64,14 +64,14 @@ class Cache(NullCache):
     """A cache that stores pickled Python objects in an sqlite3 database.
     """
 
-    registered = {}
-
     commit_every_seconds = 30
     commit_every_count = 500
 
     def __init__(self, context):
         super().__init__(context)
 
+        self.registered = {}
+
         self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
 
         self.num_cached_rows = 0
diff --git a/libff/registry.py b/libff/registry.py
index ff70017..3a6671f 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -44,12 +44,13 @@ class Registry(BaseClass):
     registered_types = set()
     registered_plugins = {}
 
-    plugins = {}
     attributes = {}
 
     def __init__(self, context):
         super().__init__(context)
 
+        # The plugins that were set up, together with the cache of this context.
+        self.plugins = {}
         self.optimize_for_slow_plugins = False
 
         with self.context.global_lock:
-- 
2.43.0


From a0fc28cc52edca5aab02bc1d9af7ab80779019fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 42/57] fix: end quietly if nobody reads the output any more

---
 libff/console.py | 10 ++++------
 libff/context.py | 11 +++++++++++
 libff/main.py    |  7 +++++--
 libff/walk.py    |  3 +++
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 78f4dfc..e751028 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -99,19 +99,17 @@ class JsonConsole(JsonlConsole):
     def __init__(self, context):
         super().__init__(context)
 
-        print("[", end="")
-        self.print_comma = False
+        self.separator = "["
 
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        if self.print_comma:
-            print(",", end="")
+        print(self.separator, end="")
         json.dump(record, sys.stdout, default=self.encode)
-        self.print_comma = True
+        self.separator = ","
 
     def close(self):
-        print("]")
+        print("]" if self.separator == "," else "[]")
 
 
 class Console(BaseConsole):
diff --git a/libff/context.py b/libff/context.py
index 0115ca6..bab87b3 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -18,6 +18,8 @@
 #
 # -----------------------------------------------------------------------
 
+import os
+import sys
 import threading
 import subprocess
 import multiprocessing
@@ -147,6 +149,15 @@ class Context:
         if not self.is_stopping():
             self.stop_queue.put(None)
 
+    def stop_output(self):
+        """Stop all processes immediately because nobody reads the output any more.
+        """
+        self.stop()
+
+        # Discard what is still buffered, otherwise this ends in another BrokenPipeError as soon as
+        # the buffer is flushed.
+        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
+
     def run_exec_process(self, args):
         """Run a subprocess with the arguments from --exec. If the process fails, terminate the
            main loop and all other running subprocesses depending on the value of the --halt
diff --git a/libff/main.py b/libff/main.py
index 41861f6..d7df075 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -287,6 +287,10 @@ class Main(_Base):
                 stats.sort_stats("cumulative")
                 stats.print_stats(.1)
 
+            # Print what is still missing.
+            self.context.processing.close()
+            sys.stdout.flush()
+
         except KeyboardInterrupt as exc:
             # Stop all processes immediately.
             self.context.stop()
@@ -296,11 +300,10 @@ class Main(_Base):
                 raise SystemExit("keyboard interrupt") from exc
 
         except BrokenPipeError:
-            self.context.stop()
+            self.context.stop_output()
 
         self.context.close()
         self.context.walker.close()
-        self.context.processing.close()
 
         if __debug__:
             hits = self.context.cache_hits.value
diff --git a/libff/walk.py b/libff/walk.py
index 764e3d3..386b8b6 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -132,6 +132,9 @@ class FilesystemWalker(BaseClass):
 
             self.cache.close()
 
+        except BrokenPipeError:
+            self.context.stop_output()
+
         except Exception:
             # Terminate all processes if an unexpected error occurs.
             self.context.set_exitcode(EX_PROCESS)
-- 
2.43.0


From a21c4a6ada0b4a761318d7fcfe6eac6d39b99277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 43/57] fix: report dead processes to the caller of Find

---
 libff/find.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 85f1749..da28b9e 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -24,6 +24,7 @@ import argparse
 from .main import _Base
 from .ignore import IGNORE_FILES
 from .arguments import Defaults, ArgumentsPostProcessor
+from .exceptions import EX_PROCESS, ProcessError
 from .processing import ImmediateGenerator, CollectiveGenerator
 
 
@@ -137,3 +138,7 @@ class Find(_Base):
         self.context.close()
         self.context.walker.close()
         self.context.processing.close()
+
+        if self.context.exitcode == EX_PROCESS:
+            raise ProcessError("One or more ff processes had unrecoverable errors! "\
+                    "Result is probably incomplete!")
-- 
2.43.0


From 85be4ecb7e1e9444528c40bd1c61a4629cc5744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 44/57] fix: match globs against the value of the attribute

---
 libff/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index bc34259..afd6978 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -170,7 +170,8 @@ class Path(String):
             value = value.lower()
 
         if test.operator == "%":
-            basename = entry.name.lower() if test.ignore_case else entry.name
+            # The value is not necessarily the path of the entry itself.
+            basename = os.path.basename(value)
             is_dir = entry.is_dir()
 
             if test.value.match(value, basename, is_dir):
-- 
2.43.0


From 30d65f12c6f8f7689107f2906d0234488a67f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 45/57] fix: print entries of the root directory with one slash

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index e751028..7608bca 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -159,7 +159,7 @@ class Console(BaseConsole):
         name = self.render_name(entry)
 
         if entry.dir:
-            dirname = self.render_directory(entry.dir + os.sep)
+            dirname = self.render_directory(os.path.join(entry.dir, ""))
             path = String(dirname.value + name.value, dirname.length + name.length)
         else:
             path = name
-- 
2.43.0


From 4461ec1c44f3ead4f1d16374d9e3f77f12f4fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 46/57] fix: do not abort if the file system type is unknown

---
 plugins/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/fs.py b/plugins/fs.py
index 7914163..364f94f 100644
--- a/plugins/fs.py
+++ b/plugins/fs.py
@@ -104,7 +104,10 @@ class Fs(Plugin):
         else:
             path = os.path.abspath(entry.dir)
 
-        name, remote = self.get_fs_type(path)
+        try:
+            name, remote = self.get_fs_type(path)
+        except OSError as exc:
+            raise NoData from exc
 
         yield "type", name
         yield "remote", remote
-- 
2.43.0


From 7516d50af217773ba3515fb8843d58c752651c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 47/57] fix: compare absolute paths with the files of packages

---
 plugins/pacman.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plugins/pacman.py b/plugins/pacman.py
index c17f896..7dfeda1 100644
--- a/plugins/pacman.py
+++ b/plugins/pacman.py
@@ -38,10 +38,10 @@ class Pacman(Plugin):
     def setup(self):
         self.pkglist = {}
         self.filelist = set()
-        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE, text=True) as proc:
+        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE) as proc:
             for line in proc.stdout:
-                line = line.strip()
-                pkgname, path = line.split(None, 1)
+                line = os.fsdecode(line).rstrip("\n")
+                pkgname, path = line.split(" ", 1)
                 path = path.rstrip(os.sep)
                 self.filelist.add(path)
                 self.pkglist.setdefault(pkgname, set()).add(path)
@@ -50,10 +50,10 @@ class Pacman(Plugin):
         return True
 
     def process(self, entry, cached):
-        if entry.path in self.filelist:
+        if entry.abspath in self.filelist:
             yield "installed", True
             for pkgname, filelist in self.pkglist.items():
-                if entry.path in filelist:
+                if entry.abspath in filelist:
                     yield "pkgname", pkgname
         else:
             yield "installed", False
-- 
2.43.0


From ce62d7e25ea3bb2bc72abec5a9f39360bc402de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 48/57] fix: do not pass cache connections on to other
 processes

---
 libff/cache.py | 27 +++++++++++++++++++++++++--
 libff/find.py  |  5 +++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 8666ecc..3223edb 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -40,6 +40,10 @@ class NullCache(BaseClass):
     """A cache that stores nothing and also acts as a base class.
     """
 
+    def disconnect(self):
+        """Close the connection to the storage, if there is one, until it is needed again.
+        """
+
     def close(self):
         """Close the cache.
         """
@@ -72,7 +76,7 @@ class Cache(NullCache):
 
         self.registered = {}
 
-        self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
+        self._conn = None
 
         self.num_cached_rows = 0
         self.last_commit = time.time()
@@ -81,6 +85,22 @@ class Cache(NullCache):
         self.hits = 0
         self.misses = 0
 
+    @property
+    def conn(self):
+        """The connection to the database. It is opened when it is needed, because a connection must
+           not be carried across a fork(): every process has to use its own.
+        """
+        if self._conn is None:
+            self._conn = sqlite3.connect(self.context.args.cache, timeout=30)
+        return self._conn
+
+    def disconnect(self):
+        """Close the connection until it is needed again.
+        """
+        if self._conn is not None:
+            self._conn.close()
+            self._conn = None
+
     def close(self):
         """Commit remaining cached rows and close the database connection.
         """
@@ -90,7 +110,7 @@ class Cache(NullCache):
                         "pending entries")
             self.commit()
 
-        self.conn.close()
+        self.disconnect()
 
         with self.context.cache_hits.get_lock():
             self.context.cache_hits.value += self.hits
@@ -104,6 +124,9 @@ class Cache(NullCache):
         self.init_table(plugin_cls)
         self.registered[plugin_cls.name] = plugin_cls
 
+        # Do not pass the connection on to the walker processes.
+        self.disconnect()
+
     def init_table(self, plugin_cls):
         """Check if there is already a table for this plugin in the database. Also drop tables from
            older versions of this plugin.
diff --git a/libff/find.py b/libff/find.py
index da28b9e..270ea8e 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -135,6 +135,11 @@ class Find(_Base):
                 process.terminate()
             raise
 
+        finally:
+            # Do not leave this to the garbage collector, which may run in another thread at any
+            # time, e.g. while the processes of another search are forked.
+            self.context.cache.disconnect()
+
         self.context.close()
         self.context.walker.close()
         self.context.processing.close()
-- 
2.43.0


From d1c3e65d70e7a94aa255bb9bd04358e20fa8e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 49/57] fix: respect the encoding of Python files

---
 plugins/introspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 999c945..b639d81 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -123,8 +123,8 @@ class Py(Plugin):
     def parse_imports(self, entry):
         """Extract the names of modules and packages that a Python script imports.
         """
-        # pylint:disable=unspecified-encoding
-        with open(entry.path) as fobj:
+        # Leave the decoding to ast.parse(), which knows about encoding declarations.
+        with open(entry.path, "rb") as fobj:
             data = fobj.read()
 
         for node in ast.walk(ast.parse(data)):
-- 
2.43.0


From 3c8b6692c3e0edc77a64a6ea4bc0c79c599b1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 50/57] fix: count each attribute once even if it is given
 several times

---
 libff/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/field.py b/libff/field.py
index 8307547..2ee57b0 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -116,6 +116,9 @@ class CountFields(OutputFields):
     def store(self, argument):
         super().store(argument)
 
+        # Count each attribute only once even if it was given more than once.
+        self[:] = dict.fromkeys(self)
+
         for field in self:
             if field.type.count is Count.UNCOUNTABLE:
                 raise UsageError(f"Attribute {field.attribute} is not suited for --count!")
-- 
2.43.0


From c5934193f6dd325343c0cc93382e42b608bb15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 51/57] fix: show the help of plugins and types without a
 description

---
 libff/help.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/help.py b/libff/help.py
index 2753c77..38c82d4 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -185,9 +185,9 @@ class ManPage:
         return string.replace("-", "\\-")
 
     def add(self, line=""):
-        """Add a line to the internal buffer.
+        """Add a line to the internal buffer. A description that is missing is None.
         """
-        self.lines.append(self.process(line))
+        self.lines.append(self.process(line if line is not None else ""))
 
     def add_header(self, name, section, title):
         """Add a manpage header.
-- 
2.43.0


From 8aafe3d8100db3cd6f72fce5ca1bea23b1ec27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 52/57] fix: show all the text of descriptions in the help

---
 libff/help.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libff/help.py b/libff/help.py
index 38c82d4..39e5a0d 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -158,6 +158,10 @@ class ManPage:
         # Turn paragraphs into one long line each.
         string = "\n\n".join(" ".join(s.split()) for s in string.split("\n\n"))
 
+        # Escape backslashes, and control characters at the start of a line.
+        string = string.replace("\\", "\\[rs]")
+        string = re.sub(r"^(?=[.'])", r"\\&", string, flags=re.M)
+
         def replace(match):
             if match.group(1):
                 # Make single-quoted strings italic. It should match "'s'" but not "file's".
@@ -231,7 +235,7 @@ class ManPage:
 
             self.add_definition(attribute)
             self.add(f"Type: {type_cls.name}  ( {' '.join(type_cls.operators)} )")
-            self.add(br)
+            self.lines.append(br)
             self.add(help_text)
             self.add()
 
@@ -249,7 +253,7 @@ class ManPage:
                 self.add(f"Uses cache: {'Yes' if plugin.use_cache else 'No'}")
             else:
                 self.add(f"{name.capitalize()}: {getattr(plugin, name)}")
-            self.add(br)
+            self.lines.append(br)
 
     def print(self):
         """Print the raw manpage to stdout.
@@ -369,9 +373,9 @@ class TypesManPage(ManPage):
         """
         self.add_section(f"{type_cls.name} Type")
         self.add(f"Name:  {type_cls.name}")
-        self.add(br)
+        self.lines.append(br)
         self.add(f"Operators:  {' '.join(type_cls.operators)}")
-        self.add(br)
+        self.lines.append(br)
         self.add(f"Count: {type_cls.count.name.lower()}")
         self.add()
         self.add(type_cls.__doc__)
-- 
2.43.0


From 75a7e835e4a85189b9a16e2009a56f73d7ba608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:08 +0000
Subject: [PATCH 53/57] fix: end quietly when the reader of the help goes away

---
 libff/arguments.py | 1 +
 libff/context.py   | 7 +++++--
 libff/main.py      | 5 +++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 1caf9ef..4d17411 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -356,6 +356,7 @@ def parse_arguments():
     if args.help == "all":
         # Help on plugins is taken care of in libff/find.py.
         parser.print_help()
+        sys.stdout.flush()
         raise SystemExit(EX_OK)
 
     processor = ArgumentsPostProcessor(args)
diff --git a/libff/context.py b/libff/context.py
index bab87b3..20e6e2b 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -153,9 +153,12 @@ class Context:
         """Stop all processes immediately because nobody reads the output any more.
         """
         self.stop()
+        self.discard_output()
 
-        # Discard what is still buffered, otherwise this ends in another BrokenPipeError as soon as
-        # the buffer is flushed.
+    def discard_output(self):
+        """Discard what is still buffered, otherwise this ends in another BrokenPipeError as soon as
+           the buffer is flushed.
+        """
         os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
 
     def run_exec_process(self, args):
diff --git a/libff/main.py b/libff/main.py
index d7df075..02e0571 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -116,6 +116,7 @@ class _Base(BaseClass):
         if args.action is not None:
             if args.action == "version":
                 print(__copyright__)
+                sys.stdout.flush()
 
             elif args.action == "clean":
                 self.context.cache.clean()
@@ -225,6 +226,10 @@ class Main(_Base):
             self.setup(*parse_arguments())
         except BaseError as exc:
             self.handle_exception(exc)
+        except BrokenPipeError as exc:
+            # Nobody reads the help any more.
+            self.context.discard_output()
+            raise SystemExit(EX_OK) from exc
 
     def loop(self):
         """Do all the processing and exit.
-- 
2.43.0


From 0b35608791a6871db1e3dd790e563f3149f9c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:40 +0000
Subject: [PATCH 54/57] fix: respect NO_COLOR with --color=auto

---
 libff/arguments.py  | 3 +--
 libff/processing.py | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 4d17411..9f718c8 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -123,8 +123,7 @@ def create_parser():
             default="never", metavar="<when>",
             help="When to terminate in case one of the -x/--exec commands fails: "\
                  "*never*, soon, now.")
-    parser.add_option("-C", "--color", choices=["auto", "never", "always"],
-            default="never" if "NO_COLOR" in os.environ else "auto",
+    parser.add_option("-C", "--color", choices=["auto", "never", "always"], default="auto",
             metavar="<when>", help="When to use colors: never, *auto*, always.")
     parser.add_option("-a", "--absolute-path", action="store_true", default=False,
             help="Show absolute instead of relative paths.")
diff --git a/libff/processing.py b/libff/processing.py
index 8fa5cab..0f42ff8 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -19,6 +19,7 @@
 #
 # -----------------------------------------------------------------------
 
+import os
 import sys
 import json
 import time
@@ -183,7 +184,8 @@ class BaseConsoleProcessing(ImmediateBaseProcessing):
         elif self.args.json == "jsonl":
             console_cls = JsonlConsole
 
-        elif sys.stdout.isatty() if self.args.color == "auto" else self.args.color == "always":
+        elif self.args.color == "always" or self.args.color == "auto" and \
+                "NO_COLOR" not in os.environ and sys.stdout.isatty():
             console_cls = ColorConsole
 
         else:
-- 
2.43.0


From dd6512b468d30a0928357d3735d5d77dbaff4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:11 +0000
Subject: [PATCH 55/57] fix: find the targets of absolute symbolic links

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index b00d1fa..3b84438 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -145,7 +145,7 @@ class Entry:
         # Collect information early to avoid having OSErrors later on.
         if stat.S_ISLNK(self.status.st_mode):
             self.link = os.readlink(self.path)
-            self.target = os.path.realpath(join(self.dir, self.link))
+            self.target = os.path.realpath(os.path.join(self.dir, self.link))
             self.broken = not os.path.exists(self.target)
         else:
             # Don't set link and target so that KeyError is raised in get_attribute().
-- 
2.43.0


From 70797100b8c69e0820e875d9b9f9efa971dbd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:49 +0000
Subject: [PATCH 56/57] fix: reset colours if the rule for this is empty

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 7608bca..d032fbc 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -301,7 +301,7 @@ class ColorConsole(Console):
                     if ext:
                         self.extensions[ext] = esc(value)
 
-        self.reset = esc(rules.get("rs", "0"))
+        self.reset = esc(rules.get("rs") or "0")
 
         # Prepare escape sequences for directories, executables, symlinks and orphans. There are
         # some more we might add in the future.
-- 
2.43.0


From a16955fc79e16a2b0e35f9801b9038068af9face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:31 +0000
Subject: [PATCH 57/57] fix: refuse durations that are blank

---
 libff/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index 3ad49d9..85b031b 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -127,7 +127,7 @@ def parse_duration(string):
         elif unit == "y":
             duration += count * 31536000 # 365 days
 
-    if end != len(string):
+    if not string or end != len(string):
         raise ValueError(f"unable to parse {string!r}")
 
     return duration
-- 
2.43.0

