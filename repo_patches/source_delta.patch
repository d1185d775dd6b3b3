From eccdd73a6575ee2b8d3e145df7e6f392f04f14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 01/52] fix: take the library lock when lock_calls is set

The lock is stored as _lock_; looking up lib.lock went through __getattr__
and raised NameError (or returned a header symbol called lock).
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..8cbb90b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From 631f2bc059e21bd519aff10ccf71a61673bb0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 02/52] fix: lib(typ, name) no longer fails once the prefixed
 name was looked up

self.objs does not exist, so the lookup fell through to __getattr__.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 8cbb90b..ba39a66 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -266,7 +266,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
 
         for n in names:
             if n in objs:
-                return self.objs[n]
+                return objs[n]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
-- 
2.43.0


From 385d589a20b002426c0680f50ea23de1c545274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 03/52] fix: resolving a multi-dimensional array no longer
 alters its definition

The in-place += extended the list stored in the parser definitions, so every
further resolution of the same type got additional dimensions.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..9e3a3bf 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,8 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        # Build a new list, the original belongs to the parser
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From ad3be206fab9ccf8d0efa238002dfb9c82932320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 04/52] fix: functions declared with a calling convention can
 be bound

The return type is a (tuple based) Type which has no remove method.
---
 pyclibrary/c_library.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index ba39a66..df3cfe9 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -18,7 +18,7 @@ from inspect import cleandoc
 from threading import RLock
 from weakref import WeakValueDictionary
 
-from .c_parser import CParser
+from .c_parser import CParser, Type
 from .utils import LibraryPath, find_library
 
 logger = logging.getLogger(__name__)
@@ -407,9 +407,10 @@ class CFunction(object):
 
         # remove void args from list
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
-        for conv in ["__stdcall", "__cdecl"]:
-            if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+        # remove the calling convention from the return type
+        self.sig[0] = Type(
+            *[m for m in sig[0] if m not in ("__stdcall", "__cdecl")],
+        )
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From f057c56e1cbbe372b169348cfde89e0b3f4acc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:54 +0000
Subject: [PATCH 05/52] fix: honour the bit width of structure members

The width is the fourth item of a member, the third one is its default value:
bit fields were laid out as plain members and default values taken as widths.
---
 pyclibrary/backends/ctypes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 9e3a3bf..2a1c660 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -329,7 +329,9 @@ class CTypesCLibrary(CLibrary):
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            anon.append(name)
+                            # An unnamed bit field is only padding
+                            if len(d) < 4:
+                                anon.append(name)
                             break
                         c += 1
                 members.append(d[0])
@@ -338,12 +340,8 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
-                for m in defs
-            ]
+            # Members are (name, type, value) or (name, type, value, bit width)
+            s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From 03aee3a183a71ee3ac7fe73830a7e1cdd59b3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:54 +0000
Subject: [PATCH 06/52] fix: a structure has a single class whatever the name
 used to get it

Accessing it through a typedef rebuilt the class, and instances of the new
class were refused by functions bound with the previous one.
---
 pyclibrary/backends/ctypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 2a1c660..30bdd03 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -296,6 +296,7 @@ class CTypesCLibrary(CLibrary):
         if str_name not in self._structs_:
             str_name = self._resolve_struct_alias(str_type, str_name)
 
+        if str_name not in self._structs_:
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
-- 
2.43.0


From 4c8107a21201190ca8d989cb771fe970dd653822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:12 +0000
Subject: [PATCH 07/52] fix: do not keep the class of a structure whose
 definition failed

The second access to such a structure silently returned a class without any
field.
---
 pyclibrary/backends/ctypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 30bdd03..179bdcd 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -342,7 +342,12 @@ class CTypesCLibrary(CLibrary):
             # for integer but I am not sure how to test for it in a nice
             # fashion.
             # Members are (name, type, value) or (name, type, value, bit width)
-            s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+            try:
+                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+            except Exception:
+                # Do not keep a class without fields
+                del self._structs_[str_name]
+                raise
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From 293e7707c6f23e7b250e198b3f7683273fea0c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:12 +0000
Subject: [PATCH 08/52] fix: preprocessing keeps one line of output per line of
 input

Directives in an inactive section and unrelated pragmas dropped their line,
which shifted the following code with respect to the lines recorded for
#pragma pack: structures got the packing of another part of the file.
---
 pyclibrary/c_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..f677408 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -943,6 +943,7 @@ class CParser(object):
 
                 elif d == "define":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     logger.debug(
                         "  " * (len(if_true) - 1)
@@ -960,6 +961,7 @@ class CParser(object):
 
                 elif d == "undef":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     try:
                         self.rem_def("macros", macroName.strip())
@@ -978,9 +980,11 @@ class CParser(object):
                 # The current implementation follows the MSVC doc.
                 elif d == "pragma":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     m = re.match(r"\s+pack\s*\(([^\)]*)\)", rest)
                     if not m:
+                        result.append(new_line)
                         continue
                     if m.groups():
                         opts = [s.strip() for s in m.groups()[0].split(",")]
-- 
2.43.0


From ba2828a6ec2b9a359703dfe9085a3369b6b68b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:12 +0000
Subject: [PATCH 09/52] fix: #pragma pack does not apply to the line preceding
 it

A structure between pack(push, n) and a pack(pop) on the next line was not
packed, and one right before a pack(n) was.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f677408..ddd2026 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1534,7 +1534,8 @@ class CParser(object):
         """Return the structure packing value at the given line number."""
         packing = None
         for p in self.pack_list[self.current_file]:
-            if p[0] <= line:
+            # Pragmas are recorded with 0-based lines, line is 1-based
+            if p[0] < line:
                 packing = p[1]
             else:
                 break
-- 
2.43.0


From 5f70a88a61ac40b0d69327513f8f3dcf2e07a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:12 +0000
Subject: [PATCH 10/52] fix: evaluate !=, hexadecimal and suffixed numbers in
 #if

'!=' was turned into 'not =', and the letters of numbers such as 0x10 or
201112L into zeros.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ddd2026..b921382 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1030,7 +1030,9 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            number
+            | oneOf("== !=")
+            | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
-- 
2.43.0


From 8f82ba4debe0a1432e64cabc5f3144f8848bbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 11/52] fix: #undef of a macro defined in another file removes
 it everywhere

The macro stayed in the definitions of the file which defined it, and came back
when these were loaded from a cache or copied to another parser.
---
 pyclibrary/c_parser.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b921382..7cff197 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1688,16 +1688,13 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from both the definition sets
+        of the files and the global definition set.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        for file_def in self.file_defs.values():
+            file_def[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From b12aa59ff400bb9b82f3d1c6d1af4208899b2a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 12/52] fix: #undef applies to function-like macros too

---
 pyclibrary/c_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7cff197..fe4f6be 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -963,12 +963,13 @@ class CParser(object):
                     if not if_true[-1]:
                         result.append(new_line)
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    for kind in ("macros", "fnmacros"):
+                        try:
+                            self.rem_def(kind, macroName.strip())
+                        except Exception:
+                            if sys.exc_info()[0] is not KeyError:
+                                mess = "Error removing macro definition '{}'"
+                                logger.exception(mess.format(macroName.strip()))
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
-- 
2.43.0


From 8a80879cbe03dfca55e3c5cce2f73d5a28f69f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 13/52] fix: an enum used before its definition gets its
 members

The reference registered an empty enum, and the definition was then ignored.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fe4f6be..94e2a43 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1497,7 +1497,7 @@ class CParser(object):
 
             logger.debug("  name: {}".format(name))
 
-            if name not in self.defs["enums"]:
+            if name not in self.defs["enums"] or self.defs["enums"][name] == {}:
                 i = 0
                 enum = {}
                 for v in t.members:
-- 
2.43.0


From 6801fd1468d23db605efa219defb767856446bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 14/52] fix: expand the macros following a string literal

For a string the group N does not participate in the match and its end is -1:
the rest of the line but its last character was skipped.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 94e2a43..6124e5a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1133,7 +1133,7 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
-- 
2.43.0


From 5336d1b1cb32749575d72527a8f8eef31b00aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 15/52] fix: a string literal may end with an escaped backslash

The closing quote was taken for an escaped one, and the code following it for a
part of the string in which no macro is expanded.
---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6124e5a..f7b781c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1081,7 +1081,7 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args)
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(r'("(\\.|[^"\\])*")|(\b({})\b)'.format(args_str))
         start = 0
         parts = []
         arg_order = []
@@ -1102,7 +1102,7 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(r'("(\\.|[^"\\])*")|(\b(\w+)\b)')
         parts = []
         # The group number to check for macro names
         N = 3
-- 
2.43.0


From d469afd6333b68184c19dd05ac8884f3c5d74af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 16/52] fix: expand function macros whose text contains braces

---
 pyclibrary/c_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f7b781c..a0f8853 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1082,6 +1082,8 @@ class CParser(object):
         # Find all instances of each arg in text.
         args_str = "|".join(args)
         arg_regex = re.compile(r'("(\\.|[^"\\])*")|(\b({})\b)'.format(args_str))
+        # The result is a format string, in which braces have to be doubled.
+        escape = lambda s: s.replace("{", "{{").replace("}", "}}")  # noqa
         start = 0
         parts = []
         arg_order = []
@@ -1090,10 +1092,10 @@ class CParser(object):
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
-                parts.append(text[start : m.start(N)] + "{}")
+                parts.append(escape(text[start : m.start(N)]) + "{}")
                 start = m.end(N)
                 arg_order.append(args.index(arg))
-        parts.append(text[start:])
+        parts.append(escape(text[start:]))
         return ("".join(parts), arg_order)
 
     def expand_macros(self, line):
-- 
2.43.0


From 5808a06e1fd327f34c9da52f9fff8ac2b80d3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 17/52] fix: names found in headers are not looked up in the
 Python builtins

'#define EXIT exit(0)' terminated the interpreter, and '#define X os' exposed a
Python module as a value which then could not be cached.
---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a0f8853..a8bac5b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1041,7 +1041,7 @@ class CParser(object):
         expr2 = macro_diffs.transformString(expr).strip()
 
         try:
-            ev = bool(eval(expr2))
+            ev = bool(eval(expr2, {"__builtins__": {}}))
         except Exception:
             mess = "Error evaluating preprocessor expression: {} [{}]\n{}"
             logger.debug(mess.format(expr, repr(expr2), format_exc()))
@@ -1672,7 +1672,8 @@ class CParser(object):
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
-        return eval(expr, *args)
+        # The names used in headers never refer to Python objects.
+        return eval(expr, {"__builtins__": {}}, *args[1:])
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
-- 
2.43.0


From 95d92c440d35d0947955c19695e87eab7882be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 18/52] fix: find_header and find_library do not modify the
 list they are given

---
 pyclibrary/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..33a3aab 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -68,7 +68,7 @@ def find_header(h_name, dirs=None):
 
     """
     if dirs:
-        dirs += HEADER_DIRS[::-1]
+        dirs = list(dirs) + HEADER_DIRS[::-1]
     else:
         dirs = HEADER_DIRS[::-1]
 
@@ -135,7 +135,7 @@ def find_library(name, dirs=None):
 
     """
     if dirs:
-        dirs += LIBRARY_DIRS[::-1]
+        dirs = list(dirs) + LIBRARY_DIRS[::-1]
     else:
         dirs = LIBRARY_DIRS[::-1]
 
-- 
2.43.0


From 4321c5b603c30cffb2bea9445b23c7eefee12f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 19/52] fix: init and auto_init do not modify their arguments

---
 pyclibrary/backends/ctypes.py | 2 ++
 pyclibrary/init.py            | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 179bdcd..65ebedd 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -405,6 +405,8 @@ if sys.platform == "win32":
 
 
 def init_clibrary(extra_types={}):
+    extra_types = dict(extra_types)
+
     # First load all standard types
     CTypesCLibrary._types_ = {
         "bool": c_bool,
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..3dd52c7 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From e562bcda9508952394b302bd70afa65465f9c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 20/52] fix: bind 'unsigned __int64' on windows

Only the types listed in extra_types were added, and it lists __int64 alone.
---
 pyclibrary/backends/ctypes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 65ebedd..d8b2aed 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -446,9 +446,7 @@ def init_clibrary(extra_types={}):
     }
 
     if sys.platform == "win32":
-        for k in extra_types:
-            if k in WIN_TYPES:
-                extra_types[k] = WIN_TYPES[k]
+        extra_types.update(WIN_TYPES)
 
     if sys.version_info >= (3, 12):
         extra_types["time_t"] = c_time_t
-- 
2.43.0


From 5f38e3725358917a9e45177726b816d93ef792f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 21/52] fix: quote the library name passed to the shell

---
 pyclibrary/thirdparty/find_library.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 1687c14..29b15fd 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -13,6 +13,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
     def define_find_libary():
         import errno
         import re
+        import shlex
         import tempfile
 
         def _findlib_gcc(name):
@@ -21,7 +22,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
             os.close(fdout)
             cmd = (
                 "if type gcc >/dev/null 2>&1; then CC=gcc; else CC=cc; fi;"
-                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + name
+                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + shlex.quote(name)
             )
             trace = ""
             try:
@@ -45,7 +46,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
             res = re.search(expr, os.popen("/sbin/ldconfig -p 2>/dev/null").read())
             if not res:
                 # Hm, this works only for libs needed by the python executable.
-                cmd = "ldd %s 2>/dev/null" % sys.executable
+                cmd = "ldd %s 2>/dev/null" % shlex.quote(sys.executable)
                 res = re.search(expr, os.popen(cmd).read())
                 if not res:
                     return None
-- 
2.43.0


From 143506d4959f2a9754059794db9631f324d645cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 22/52] fix: close the cache file and the pipes opened to find
 a library

---
 pyclibrary/c_parser.py                |  3 ++-
 pyclibrary/thirdparty/find_library.py | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a8bac5b..fa34449 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -658,7 +658,8 @@ class CParser(object):
             # Read cache file
             import pickle
 
-            cache = pickle.load(open(cache_file, "rb"))
+            with open(cache_file, "rb") as fd:
+                cache = pickle.load(fd)
 
             # Make sure __init__ options match
             if check_validity:
diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 29b15fd..ba8856a 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -26,9 +26,8 @@ if os.name == "posix" and sys.platform.startswith("linux"):
             )
             trace = ""
             try:
-                f = os.popen(cmd)
-                trace = f.read()
-                f.close()
+                with os.popen(cmd) as f:
+                    trace = f.read()
             finally:
                 try:
                     os.unlink(ccout)
@@ -43,11 +42,13 @@ if os.name == "posix" and sys.platform.startswith("linux"):
         def _findlib_ldconfig(name):
             # XXX assuming GLIBC's ldconfig (with option -p)
             expr = r"/[^\(\)\s]*lib%s\.[^\(\)\s]*" % re.escape(name)
-            res = re.search(expr, os.popen("/sbin/ldconfig -p 2>/dev/null").read())
+            with os.popen("/sbin/ldconfig -p 2>/dev/null") as f:
+                res = re.search(expr, f.read())
             if not res:
                 # Hm, this works only for libs needed by the python executable.
                 cmd = "ldd %s 2>/dev/null" % shlex.quote(sys.executable)
-                res = re.search(expr, os.popen(cmd).read())
+                with os.popen(cmd) as f:
+                    res = re.search(expr, f.read())
                 if not res:
                     return None
             return res.group(0)
-- 
2.43.0


From c08b2ff44608cb3de1d499b647c1995b65c9f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 23/52] fix: remove_compatibility_hack keeps the type
 qualifiers

---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fa34449..4a1eb05 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -241,7 +241,10 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            return Type(
+                *(self[0] + (self[1],)),
+                type_quals=(*self[0].type_quals, self.type_quals[1]),
+            )
         else:
             return self
 
-- 
2.43.0


From 2a1b6ae37e0b2ce25eb252eee482d2b855cf7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 24/52] fix: resolve 'signed' alone and between other
 specifiers

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4a1eb05..1bfabd0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -184,7 +184,7 @@ class Type(tuple):
         if self.is_fund_type():
             # Remove 'signed' before returning evaluated type
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                " ".join(w for w in self.type_spec.split() if w != "signed") or "int",
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From 96d5514e7d904f000dc762aaf2ca3b873dfa94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 25/52] fix: do not use the windows only parts of ctypes on
 other platforms

A __stdcall function pointer or convention='windll' raised NameError.
---
 pyclibrary/backends/ctypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index d8b2aed..14d3e32 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -151,9 +151,9 @@ class CTypesCLibrary(CLibrary):
         """Find and link the external librairy if only a path was provided."""
         if convention == "cdll":
             return cdll.LoadLibrary(lib_path)
-        elif convention == "windll":
+        elif convention == "windll" and sys.platform == "win32":
             return windll.LoadLibrary(lib_path)
-        elif convention == "oledll":
+        elif convention == "oledll" and sys.platform == "win32":
             return oledll.LoadLibrary(lib_path)
         else:
             raise ValueError("Convention cannot be {}".format(convention))
@@ -274,7 +274,7 @@ class CTypesCLibrary(CLibrary):
                             (function without single pointer): {}""")
                         raise DefinitionError(mess.format(typ))
 
-                    if conv == "__stdcall":
+                    if conv == "__stdcall" and sys.platform == "win32":
                         mkfn = WINFUNCTYPE
 
                     else:
-- 
2.43.0


From 27ec22198e0fdcf6d3b2ecd130d69e94e865c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 26/52] fix: look for headers in the system directories on
 linux

sys.platform has not been 'linux2' since Python 3.3.
---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 33a3aab..4722924 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -85,7 +85,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
-- 
2.43.0


From 3efd28317fceb77b3a508171488d842e87223d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 27/52] fix: a typedef which cannot be processed does not abort
 the parsing

---
 pyclibrary/c_parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1bfabd0..69a89f6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1636,11 +1636,15 @@ class CParser(object):
     def process_typedef(self, s, line, t):
         """ """
         logger.debug("TYPE: {}".format(t))
-        typ = t.type
-        for d in t.decl_list:
-            (name, decl) = self.process_type(typ, d)
-            logger.debug("  {} {}".format(name, decl))
-            self.add_def("types", name, decl)
+        try:
+            typ = t.type
+            for d in t.decl_list:
+                (name, decl) = self.process_type(typ, d)
+                logger.debug("  {} {}".format(name, decl))
+                self.add_def("types", name, decl)
+
+        except Exception:
+            logger.exception("Error processing typedef: {}".format(t))
 
     # --- Utility methods
 
-- 
2.43.0


From 752cbb3953c0bb5e41b0628eb8e18a796e1c8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 28/52] fix: find the already opened library whatever the way
 it is specified

The path was normalised only when a path was given, a library found by name
through a link was opened twice. The entry may also vanish between the test and
the access as the references are weak.
---
 pyclibrary/c_library.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index df3cfe9..bbc23ba 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -76,8 +76,11 @@ class CLibraryMeta(type):
             lib_path = get_library_path(lib, backend)
 
         # Check whether or not this library has already been opened.
-        if lib_path in cls.libs:
-            return cls.libs[lib_path]
+        # The object found can be collected at any time, keep a reference to it.
+        lib_path = os.path.realpath(lib_path)
+        obj = cls.libs.get(lib_path)
+        if obj is not None:
+            return obj
 
         else:
             obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
-- 
2.43.0


From c4b16f1531485db889e5fa7252ef7067713bb1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 29/52] fix: refuse a cache written by a more recent version of
 the parser

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 69a89f6..7d691e4 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -678,7 +678,7 @@ class CParser(object):
                     logger.debug("Cache init opts are OK:")
                     logger.debug("{}".format(cache["opts"]))
 
-                if cache["version"] < self.cache_version:
+                if cache["version"] != self.cache_version:
                     mess = "Cache file is not valid--cache format has changed."
                     logger.debug(mess)
                     return False
-- 
2.43.0


From 4b301b39491fc2a5d5391739dbd74099cde42205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 30/52] fix: a cache is valid only for the same encoding and
 copied definitions

The cache is documented to be invalidated if any argument changes.
---
 pyclibrary/c_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7d691e4..9dbad26 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -496,6 +496,7 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        self.init_opts["encoding"] = encoding
 
         self.data_list = [
             "types",
@@ -538,6 +539,7 @@ class CParser(object):
         if copy_from is not None:
             if not isinstance(copy_from, (list, tuple)):
                 copy_from = [copy_from]
+            self.init_opts["copy_from"] = [p.file_defs for p in copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
 
-- 
2.43.0


From 2a2d99b6f80e830b06fd67f3ce04ea6685c5a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 31/52] fix: a C comment separates the tokens around it

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9dbad26..8e91d41 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -815,7 +815,9 @@ class CParser(object):
         cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
         comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
+            quotedString
+            | cStyleComment.copy().setParseAction(lambda: " ")
+            | cplusplus_line_comment.suppress()
         )
         self.files[path] = comment_remover.transformString(text)
 
-- 
2.43.0


From 2b22015ad7c5e62e9364cbff4b9ed4f89a30383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 32/52] fix: accept lower case integer suffixes

---
 pyclibrary/c_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8e91d41..10a53d7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1811,9 +1811,9 @@ lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("UL")  # noqa
-hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
-decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
+int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
+hexint = Regex(r"[+-]?\s*0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(int_strip)
+decint = Regex(r"[+-]?\s*[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-- 
2.43.0


From b35db6a43a22e2ee56db06d1593a345ca6bd82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 33/52] fix: a macro whose value starts with a name in
 parenthesis takes no argument

Only a parenthesis right after its name makes a macro function-like.
---
 pyclibrary/c_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 10a53d7..136cd8e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -852,10 +852,13 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        # The parenthesis has to follow the name of a function macro immediately
+        deli_list = Optional(
+            lparen.copy().leaveWhitespace() + delimitedList(name) + rparen
+        )
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
-            + deli_list.setWhitespaceChars(" \t")("args")
+            + deli_list("args")
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
@@ -960,7 +963,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        self.pp_define.parseString(macroName + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
-- 
2.43.0


From 7aed6bda78f76ed3b334cc02251ab9f083405f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 34/52] fix: #pragma pack(push) without value keeps the current
 packing

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 136cd8e..e6c9017 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1010,7 +1010,9 @@ class CParser(object):
                         else:
                             id = o
 
-                    packing = val
+                    # Without value, push saves the current packing
+                    if pushpop != "push" or val is not None:
+                        packing = val
 
                     if pushpop == "push":
                         pack_stack.append((packing, id))
-- 
2.43.0


From 7582a7a5d255766688f4c61c38f2c9593a7817b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 35/52] fix: #pragma pack(pop, id) removes the most recent
 record with that id

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e6c9017..5919618 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1021,10 +1021,10 @@ class CParser(object):
                             pack_stack.pop()
                         else:
                             ind = None
+                            # Remove records up to the most recent with this id
                             for j, s in enumerate(pack_stack):
                                 if s[1] == id:
                                     ind = j
-                                    break
                             if ind is not None:
                                 pack_stack = pack_stack[:ind]
                         if val is None:
-- 
2.43.0


From cf57a6432c210bc8526e0bdf36f5a99cae195bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 36/52] fix: unbalanced #pragma pack(pop) does not abort the
 parsing

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5919618..931e7b2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1018,7 +1018,9 @@ class CParser(object):
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
                         if id is None:
-                            pack_stack.pop()
+                            # Ignore an unbalanced pop
+                            if len(pack_stack) > 1:
+                                pack_stack.pop()
                         else:
                             ind = None
                             # Remove records up to the most recent with this id
-- 
2.43.0


From 93b4c4ceb63c9d69373ba31becd6aaa8a34b59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 37/52] fix: bind the integer types whatever the order of their
 specifiers

---
 pyclibrary/backends/ctypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 14d3e32..da44065 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -53,6 +53,7 @@ from ctypes import (
     pointer,
 )
 from inspect import cleandoc
+from itertools import permutations
 
 if sys.platform == "win32":
     from ctypes import HRESULT, WINFUNCTYPE, oledll, windll
@@ -454,6 +455,11 @@ def init_clibrary(extra_types={}):
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
 
+    # C accepts the specifiers of a type in any order ('short unsigned int')
+    for name, ctype in list(CTypesCLibrary._types_.items()):
+        for specifiers in permutations(name.split()):
+            CTypesCLibrary._types_.setdefault(" ".join(specifiers), ctype)
+
 
 def identify_library(lib):
     return isinstance(lib, CDLL)
-- 
2.43.0


From 893352ae499fd03dfb6e2f69f87fbe02a0662f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 38/52] fix: a structure with a member named value is returned
 as a structure

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index da44065..c11fd14 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -166,7 +166,8 @@ class CTypesCLibrary(CLibrary):
         it wrong (a pointer being often an array).
 
         """
-        if not hasattr(obj, "value"):
+        # A structure may have a member named value
+        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
             return obj
 
         return obj.value
-- 
2.43.0


From 8df17789565ed44b7b84e24a16f9f4e9932c4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:44 +0000
Subject: [PATCH 39/52] fix: a cached prefixed name does not hide the exact
 name in lib(typ, name)

---
 pyclibrary/c_library.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index bbc23ba..e9b249b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -267,16 +267,15 @@ class CLibrary(object, metaclass=CLibraryMeta):
         names = self._all_names_(name)
         objs = self._objs_[typ]
 
-        for n in names:
-            if n in objs:
-                return objs[n]
-
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
                 typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
             ):
                 continue
 
+            if n in objs:
+                return objs[n]
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From 9c66188d1049d7ff5efe5250d63f859b92e4b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:18 +0000
Subject: [PATCH 40/52] fix: lib(typ, name) and lib.name give the same object
 for a prefixed name

---
 pyclibrary/c_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index e9b249b..eb9c4be 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -265,7 +265,6 @@ class CLibrary(object, metaclass=CLibraryMeta):
     def _make_obj_(self, typ, name):
         """Build the correct C-like object from the header definitions."""
         names = self._all_names_(name)
-        objs = self._objs_[typ]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
@@ -273,8 +272,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
             ):
                 continue
 
-            if n in objs:
-                return objs[n]
+            # Same object as the one reached by its complete name
+            if n != name:
+                return self(typ, n)
 
             if typ == "values":
                 return self._defs_[typ][n]
-- 
2.43.0


From c0734d950cf400ff48400e8f4c83e6ae8ff67cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 41/52] fix: an enumerator of unknown value does not lose the
 enumeration

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 931e7b2..893dbdd 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1525,7 +1525,8 @@ class CParser(object):
                             pass
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
-                    i += 1
+                    # The values following an unknown one are unknown too
+                    i = i + 1 if isinstance(i, (int, float)) else None
                 logger.debug("  members: {}".format(enum))
                 self.add_def("enums", name, enum)
                 self.add_def("types", "enum " + name, Type("enum", name))
-- 
2.43.0


From 2b8dcf9b358892cd59d7dc561b70d67bd9582ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 42/52] fix: keep the pointers to function pointers

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index c11fd14..6e5e908 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -264,7 +264,8 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        # Further pointers are pointers to the function pointer
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From c6c307944a35462c237772a51da49b678e3bbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 43/52] fix: the sizes of arrays of typedef'd arrays are in the
 order of C

---
 pyclibrary/c_parser.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 893dbdd..20987ab 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -16,6 +16,7 @@ import os
 import re
 import sys
 from inspect import cleandoc
+from itertools import takewhile
 from traceback import format_exc
 
 # Import parsing elements
@@ -200,17 +201,29 @@ class Type(tuple):
             raise DefinitionError(m.format(parent, " -> ".join(used)))
 
         pt = type_map[parent]
-        evaled_type = Type(
-            pt.type_spec,
-            *(pt.declarators + self.declarators),
-            type_quals=(
-                (
-                    *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
-                    *self.type_quals[1:],
-                )
-            ),
+
+        def is_array(declarator):
+            return isinstance(declarator, list)
+
+        # The sizes of consecutive arrays are in the order of C, those of an array
+        # of arrays defined by a typedef are followed by those of the typedef
+        n = sum(1 for _ in takewhile(is_array, self.declarators))
+        last = sum(1 for _ in takewhile(is_array, reversed(pt.declarators)))
+        split = len(pt.declarators) - (last if n else 0)
+        declarators = (
+            pt.declarators[:split]
+            + self.declarators[:n]
+            + pt.declarators[split:]
+            + self.declarators[n:]
+        )
+        quals = (*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0])
+        quals = (
+            *quals[: split + 1],
+            *self.type_quals[1 : n + 1],
+            *quals[split + 1 :],
+            *self.type_quals[n + 1 :],
         )
+        evaled_type = Type(pt.type_spec, *declarators, type_quals=quals)
 
         return evaled_type.eval(type_map, used)
 
-- 
2.43.0


From ae6743f6712790b1ea7b4e8075f38256e3a9c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 44/52] fix: a parameter list made of a typedef of void has no
 parameter

---
 pyclibrary/c_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index eb9c4be..29b6aba 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -408,7 +408,8 @@ class CFunction(object):
         self.sig = list(sig)
 
         # remove void args from list
-        self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
+        void = ("void",)
+        self.sig[1] = [s for s in sig[1] if lib._headers_.eval_type(s[1]) != void]
         # remove the calling convention from the return type
         self.sig[0] = Type(
             *[m for m in sig[0] if m not in ("__stdcall", "__cdecl")],
-- 
2.43.0


From a85209be76a2d000704a08f647172b60f869725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 45/52] fix: a function pointer type without parameter, written
 (void), can be bound

---
 pyclibrary/backends/ctypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 6e5e908..5afb5ff 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -284,6 +284,8 @@ class CTypesCLibrary(CLibrary):
                         mkfn = CFUNCTYPE
 
                     args = [self._get_type(arg[1]) for arg in m]
+                    # A parameter list made of void has no parameter
+                    args = [arg for arg in args if arg is not None]
                     cls = mkfn(cls, *args)
 
                 else:
-- 
2.43.0


From a433578ce4b8b7e688893f827b5366b591b2c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 46/52] fix: an initialiser is the value of the last declarator
 only

---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 20987ab..9c4e818 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1640,8 +1640,11 @@ class CParser(object):
         """ """
         logger.debug("VARIABLE: {}".format(t))
         try:
-            val = self.eval_expr(t[0])
-            for d in t[0].decl_list:
+            init = self.eval_expr(t[0])
+            last = len(t[0].decl_list) - 1
+            for i, d in enumerate(t[0].decl_list):
+                # The initialiser is the one of the last declarator
+                val = init if i == last else None
                 (name, typ) = self.process_type(t[0].type, d)
                 # This is a function prototype
                 if type(typ[-1]) is tuple:
-- 
2.43.0


From 62275ad62f8b4719a276a3e1bb8e06a8ffa4c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:28 +0000
Subject: [PATCH 47/52] fix: a Type is different from any object which is not a
 tuple

NotImplemented given by tuple.__eq__ was negated, which gave False.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9c4e818..ca5a6b0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -132,7 +132,7 @@ class Type(tuple):
         return super(Type, self).__eq__(other)
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        return not self == other
 
     @property
     def declarators(self):
-- 
2.43.0


From b927f1111c4c1972829399cc8d613db21aaf2d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:04 +0000
Subject: [PATCH 48/52] fix: recognise pointers to functions and arrays as
 unnamed arguments

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ca5a6b0..4fa3130 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1261,8 +1261,8 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                (lparen + ~rparen + self.abstract_declarator + rparen)("center")
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
-- 
2.43.0


From d9ba65d4b4315c84ea96d252b9babb7cf900cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:58 +0000
Subject: [PATCH 49/52] fix: read floating constants of several digits and with
 a suffix

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4fa3130..f5ff694 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1841,7 +1841,9 @@ decint = Regex(r"[+-]?\s*[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
+floating = Regex(
+    r"[+-]?\s*((((\d+(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d+\.\d*)|(\.\d+)))[fFlL]?"
+).setParseAction(lambda t: t[0].rstrip("fFlL"))
 number = floating | integer
 
 # Miscelaneous
-- 
2.43.0


From a5631c39fbb71a039522e07ed5e2ca41650ab880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:58 +0000
Subject: [PATCH 50/52] fix: recognise the unary operators ! ~ and & in
 expressions

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f5ff694..49a34b3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1849,7 +1849,7 @@ number = floating | integer
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * sizeof new")
+uni_left_operator = oneOf("++ -- - + * ! ~ & sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
-- 
2.43.0


From e79f042b8249eeca632973538277fd210922b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:58 +0000
Subject: [PATCH 51/52] fix: read the widths of bit fields written in
 hexadecimal

---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 49a34b3..c955456 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1607,6 +1607,7 @@ class CParser(object):
                 struct = []
                 for m in t.members:
                     typ = m[0].type
+                    base = 16 if "x" in str(m[0].bit).lower() else 10
                     val = self.eval_expr(m[0].value)
                     logger.debug(
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
@@ -1615,14 +1616,14 @@ class CParser(object):
                     if len(m[0].decl_list) == 0:  # anonymous member
                         member = [None, Type(typ[0]), None]
                         if m[0].bit:
-                            member.append(int(m[0].bit))
+                            member.append(int(m[0].bit, base))
                         struct.append(tuple(member))
 
                     for d in m[0].decl_list:
                         (name, decl) = self.process_type(typ, d)
                         member = [name, decl, val]
                         if m[0].bit:
-                            member.append(int(m[0].bit))
+                            member.append(int(m[0].bit, base))
                         struct.append(tuple(member))
                         logger.debug(
                             "      {} {} {} {}".format(name, decl, val, m[0].bit)
-- 
2.43.0


From 658dbe081f3d9f24ecec0bdeff207142a32b0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:58 +0000
Subject: [PATCH 52/52] fix: names ending with digits and a suffix of numbers
 are kept whole

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c955456..be742b1 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1706,7 +1706,7 @@ class CParser(object):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
         cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
-        expr = (quotedString | number | cast).transformString(expr)
+        expr = (quotedString | name | number | cast).transformString(expr)
         if expr == "":
             return None
         # The names used in headers never refer to Python objects.
-- 
2.43.0

