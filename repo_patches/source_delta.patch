From d68e9ebd4e55e5b00d9597cf057c07e14f646dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 1/7] fix: edit files in place atomically and keep their
 permissions

The TOC was replaced in two steps (remove the old one, insert the new one),
each one rewriting the file through a temporary file in the system temporary
directory. A crash or an error in between lost the markers and the TOC, a
crash or a full disk while moving the file across filesystems lost the
document, line numbers of one version of the file were applied to another one
if someone else edited it in the meantime, symbolic links were replaced and
the permissions were reset to 0600.
---
 md_toc/api.py     |  1 +
 md_toc/generic.py | 53 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..913991e 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -66,6 +66,7 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     return tocs_equal
 
 
+@generic._edit_atomically
 def write_string_on_file_between_markers(
     filename: str,
     string: str,
diff --git a/md_toc/generic.py b/md_toc/generic.py
index 6709da3..38e8834 100644
--- a/md_toc/generic.py
+++ b/md_toc/generic.py
@@ -22,7 +22,11 @@
 
 from __future__ import annotations
 
+import functools
+import os
 import re
+import shutil
+import tempfile
 
 import fpyutils
 
@@ -85,6 +89,55 @@ def _remove_line_intervals(filename: str, line_intervals: list[list[int]]):
         )
 
 
+def _replace_file(filename: str, content: bytes):
+    r"""Replace the whole content of a file in a single atomic step, keeping its permissions."""
+    # Do not replace a symbolic link with a regular file.
+    destination: str = os.path.realpath(filename)
+    # A rename is atomic only within the same filesystem.
+    fd, temporary_file = tempfile.mkstemp(dir=os.path.dirname(destination))
+    try:
+        with os.fdopen(fd, 'wb') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        shutil.copymode(destination, temporary_file)
+        os.replace(temporary_file, destination)
+    except BaseException:
+        os.unlink(temporary_file)
+        raise
+
+
+def _edit_atomically(function):
+    r"""Decorate a function that edits a file, its first argument, in more than one step.
+
+    All the steps are done on a private copy of the file so that a crash, an
+    error or someone else editing the file in the meantime cannot result in a
+    partially edited file.
+    """
+
+    @functools.wraps(function)
+    def wrapper(filename: str, *args, **kwargs):
+        if filename == '-':
+            return function(filename, *args, **kwargs)
+
+        with open(filename, 'rb') as f:
+            original: bytes = f.read()
+        with tempfile.TemporaryDirectory() as directory:
+            private_copy: str = os.path.join(directory, 'private_copy')
+            with open(private_copy, 'wb') as f:
+                f.write(original)
+            result = function(private_copy, *args, **kwargs)
+            with open(private_copy, 'rb') as f:
+                edited: bytes = f.read()
+
+        if edited != original:
+            _replace_file(filename, edited)
+
+        return result
+
+    return wrapper
+
+
 def _get_existing_toc(filename: str, marker: str) -> tuple:
     r"""Get the existing TOC in a file and return other important data about the TOC and its markers."""
     # TOC marker positions.
-- 
2.43.0


From db910a5ed2e46b23e3e01d85c754496208b794dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:55 +0000
Subject: [PATCH 2/7] fix: do not double carriage returns when writing a TOC
 with CRLF newlines

The string to be inserted already contained \r\n and its line feeds were
translated once more while writing. Every line of the TOC ended with \r\r\n
and a blank line was added to the document at every run.
---
 md_toc/api.py     | 2 ++
 md_toc/generic.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 913991e..1024908 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -98,6 +98,8 @@ def write_string_on_file_between_markers(
         marker, newline_string, newline_string,
         string.rstrip(), newline_string, newline_string, marker, newline_string
     ])
+    # Line feeds are translated to newline_string when the file is written.
+    final_toc_string = generic._normalize_newlines(final_toc_string)
 
     (
         old_toc,
diff --git a/md_toc/generic.py b/md_toc/generic.py
index 38e8834..f627b04 100644
--- a/md_toc/generic.py
+++ b/md_toc/generic.py
@@ -54,6 +54,11 @@ def _isascii(c) -> int:
     return 0 <= _ctoi(c) <= 127
 
 
+def _normalize_newlines(string: str) -> str:
+    r"""Replace all types of newlines with line feeds."""
+    return string.replace('\u000d\u000a', '\u000a').replace('\u000d', '\u000a')
+
+
 def _extract_lines(input_file: str, start: int, end: int) -> str:
     r"""Extract lines from file between start and end line numbers, with line numbers starting from 1."""
     if start > end or start < 1 or end < 1:
-- 
2.43.0


From fe34f27fdd0f37178379755b53fdd56f4ad9c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:55 +0000
Subject: [PATCH 3/7] fix: compare TOCs regardless of the newline string

The TOC already in the file is always read with line feeds, so a TOC built
with \r or \r\n never resulted equal to the one just written.
---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 1024908..f4c7265 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,7 +61,7 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
-    if current_toc.strip() == old_toc:
+    if generic._normalize_newlines(current_toc.strip()) == old_toc:
         tocs_equal = True
     return tocs_equal
 
@@ -111,7 +111,7 @@ def write_string_on_file_between_markers(
     ) = generic._get_existing_toc(filename, marker)
 
     equal: bool = False
-    if string.strip() == old_toc:
+    if generic._normalize_newlines(string.strip()) == old_toc:
         equal = True
 
     generic._remove_line_intervals(filename, lines_to_delete)
-- 
2.43.0


From 21ebed1d80daaf41a7c2b0ef7a81f11af48be6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:55 +0000
Subject: [PATCH 4/7] fix: the last line of an unclosed code fence is not a
 header

At the end of a file, but not of the standard input, the code fence was
considered closed before looking for headers in the last line.
---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index f4c7265..862acf9 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -324,6 +324,7 @@ def build_toc(
             f.seek(file_pointer_pos)
 
         # Code fence detection.
+        line_is_code = is_within_code_fence
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
                 line,
@@ -337,7 +338,8 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        if not line_is_code and (not is_within_code_fence
+                                 or code_fence is None):
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From 5c436e19a905a7a90f5a73859d0164e7c901346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:51 +0000
Subject: [PATCH 5/7] fix: honour the maximum header level with the redcarpet
 parser

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 862acf9..5e18f0c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1318,6 +1318,9 @@ def get_atx_heading(
                 i += 1
             current_headers = i
 
+            if current_headers > keep_header_levels:
+                line_visible: bool = False
+
             if i < len(subl) and subl[i] != ' ':
                 continue
 
-- 
2.43.0


From b013ee94eb7427e59d01ff11e02070e57abbe98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 6/7] fix: compare TOCs against a single version of the file

---
 md_toc/generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/generic.py b/md_toc/generic.py
index f627b04..3a6c52a 100644
--- a/md_toc/generic.py
+++ b/md_toc/generic.py
@@ -188,8 +188,9 @@ def _get_existing_toc(filename: str, marker: str) -> tuple:
 
             if start_line <= end_line:
                 # Real TOC detected.
-                old_toc = _extract_lines(filename, start_line,
-                                         end_line).strip()
+                # Do not read the file again: it might have changed.
+                old_toc = '\n'.join(
+                    lines.split('\n')[start_line - 1:end_line]).strip()
             else:
                 old_toc = ''
 
-- 
2.43.0


From 83a681aa703be647d8c4ed27c754954adc5c7cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:41 +0000
Subject: [PATCH 7/7] fix: do not close the standard input after reading it

A second document could not be read from the standard input by the same
process.
---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5e18f0c..ac715c7 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -436,7 +436,9 @@ def build_toc(
 
     # endwhile
 
-    f.close()
+    # The standard input does not belong to this function.
+    if filename != '-':
+        f.close()
 
     return ''.join(toc)
 
-- 
2.43.0

