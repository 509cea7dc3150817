From 42ad256bdbb52d55f557b197cf96bea4da9c3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 01/21] fix: don't write unchanged files to the output
 directory in check mode

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..597d808 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From f4addf475e583475cdc658e787b31663bca29185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 02/21] fix: log to STDERR instead of STDOUT

---
 markflow/__main__.py   | 5 ++++-
 stubs/rich/console.pyi | 1 +
 stubs/rich/logging.pyi | 8 +++++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 597d808..f96fb7d 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -200,7 +200,10 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     logging.basicConfig(
         format="",
         level=logging_levels[verbosity],
-        handlers=[rich.logging.RichHandler()],
+        # STDOUT is reserved for the reformatted document when reading from STDIN.
+        handlers=[
+            rich.logging.RichHandler(console=rich.console.Console(stderr=True))
+        ],
     )
 
     if args.developer_help:
diff --git a/stubs/rich/console.pyi b/stubs/rich/console.pyi
index a6760ea..4634428 100644
--- a/stubs/rich/console.pyi
+++ b/stubs/rich/console.pyi
@@ -15,6 +15,7 @@ class Console:
         ] = ...,
         styles: Optional[Dict[str, Style]] = ...,
         file: Optional[IO[AnyStr]] = ...,
+        stderr: bool = ...,
         width: Optional[int] = ...,
         height: Optional[int] = ...,
         record: bool = ...,
diff --git a/stubs/rich/logging.pyi b/stubs/rich/logging.pyi
index f29030d..a8cf125 100644
--- a/stubs/rich/logging.pyi
+++ b/stubs/rich/logging.pyi
@@ -1,3 +1,9 @@
 from logging import Handler
+from typing import Optional
 
-class RichHandler(Handler): ...
+from rich.console import Console
+
+class RichHandler(Handler):
+    def __init__(
+        self, level: int = ..., console: Optional[Console] = ...
+    ) -> None: ...
-- 
2.43.0


From 0442dc91da8a78d4ddb458a9f442521c87702aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 03/21] fix: check the requested permissions of existing paths

---
 markflow/_argparse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..0adbefa 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,12 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"cannot {permission.verbiage} path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From 29f38c9a1c5e959ce92f4ec88c8d4ff50001d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 04/21] fix: find files in directories whose names contain glob
 characters

---
 markflow/_argparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 0adbefa..14ddc10 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -128,6 +128,10 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
+                # The name of the directory isn't a pattern
+                directory = pathlib.Path(glob.escape(str(value)))
+                markdown_paths = glob.glob(
+                    str(directory / "**" / "*.md"), recursive=True
+                )
                 expanded_paths += [pathlib.Path(path) for path in markdown_paths]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From faa4519492c385240223e34285901f668a064d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 05/21] fix: restore the original log level even if the second
 pass fails

---
 markflow/reformat_markdown.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..710d5a5 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -87,12 +87,14 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.getEffectiveLevel()
+    level = logger.level
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
+    if logger.getEffectiveLevel() > logging.DEBUG:
         logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
-    logger.setLevel(level)
+    try:
+        new_new_text = _reformat_markdown_text(new_text, width)
+    finally:
+        logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From f92274b5cbde04a55f21f504072f85d6e33fdc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 06/21] fix: restore logging.INFO if formatting nested content
 fails

---
 markflow/_utils/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..4aec769 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -30,5 +30,7 @@ def truncate_str(str_: str, length: int) -> str:
 def redirect_info_logs_to_debug() -> Iterator[None]:
     old_info = logging.INFO
     logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    try:
+        yield
+    finally:
+        logging.INFO = old_info
-- 
2.43.0


From 0557ca800930f5ebddd771753d0b9dca6facdf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 07/21] fix: don't fail on a document that ends with a hard
 line break

---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..c04705f 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = tail[1:]
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From 088fac2ed80d37360aab80786adf49884b1e41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 08/21] fix: keep the last line of an unclosed fenced code
 block

---
 markflow/formatters/fenced_code_block.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..6c6acc1 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -32,7 +32,7 @@ before or after.
 https://spec.commonmark.org/0.29/#fenced-code-blocks
 """
 
-from typing import Optional
+from typing import List, Optional
 
 from .._utils import truncate_str
 from ..typing import Number
@@ -54,12 +54,22 @@ class MarkdownFencedCodeBlock(MarkdownSection):
             self.lines[0].strip().lstrip(self.fence_char)
         )
 
+    @property
+    def code(self) -> List[str]:
+        # The closing fence is optional at the end of a document or container
+        fence = self.fence_char * self.fence_count
+        if len(self.lines) > 1 and self.lines[-1].strip() == fence:
+            return self.lines[1:-1]
+        else:
+            return self.lines[1:]
+
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        code = self.code
+        if not code:
             return None
         else:
-            return self.lines[1].strip()
+            return code[0].strip()
 
     @property
     def language(self) -> str:
@@ -70,7 +80,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        new_lines = [fence + self.language] + self.code + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From f8df7ad030a5e6717f02bd41ab43c9795e52f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 09/21] fix: render thematic breaks with at least three
 characters

---
 markflow/formatters/thematic_break.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..e51e284 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,7 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            return self.char * max(width, 3)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From 8974237dc9460db235a8fbb931dd87caf89f2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 10/21] fix: don't lose table cells or write a malformed table

---
 markflow/formatters/table.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..aba09a2 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -9,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+DIVIDER_CELL_REGEX = re.compile(r"^:?-*:?$")
 
 
 class Alignment(enum.Enum):
@@ -35,23 +37,37 @@ def right_align(text: str, width: int) -> str:
     return f"{' ' * padding}{text}"
 
 
+def split_row(line: str) -> List[str]:
+    """Splits a row into its cells, the closing divider being optional"""
+    cells = [cell.strip() for cell in COLUMN_DIVIDER_REGEX.split(line.strip())[1:]]
+    if len(cells) > 1 and not cells[-1]:
+        cells = cells[:-1]
+    return cells
+
+
 class MarkdownTable(MarkdownSection):
     def append(self, line: str) -> None:
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
+        divider_cells = split_row(self.lines[1]) if len(self.lines) > 1 else []
+        if not divider_cells or not all(
+            DIVIDER_CELL_REGEX.match(cell) for cell in divider_cells
+        ):
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} should be the divider row of a table"
+            )
+
         column_widths = []
         for i, line in enumerate(self.lines):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
-            cols = [col.strip() for col in cols]
+            cols = split_row(line)
             column_widths.append(tuple(len(col) for col in cols))
 
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
-            divider = divider.strip()
+        for divider in divider_cells:
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
             elif divider.startswith(":"):
@@ -62,6 +78,11 @@ class MarkdownTable(MarkdownSection):
                 column_alignments.append(Alignment.NONE)
 
         header_column_count = len(column_widths[0])
+        if len(column_alignments) != header_column_count:
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} has unexpected number of columns "
+                f"(expected: {header_column_count}, actual: {len(column_alignments)})"
+            )
         for i, column_width in enumerate(column_widths[1:], start=2):
             if len(column_width) != header_column_count:
                 raise MarkdownFormatException(
@@ -77,12 +98,11 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = split_row(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
         ):
-            header = header.strip()
             if alignment == Alignment.CENTER:
                 header_strings.append(f" {center_align(header, width)} ")
             elif alignment == Alignment.LEFT:
@@ -111,9 +131,8 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                split_row(line), new_column_widths, column_alignments
             ):
-                column = column.strip()
                 if alignment == Alignment.CENTER:
                     columns.append(f" {center_align(column, width)} ")
                 elif alignment == Alignment.LEFT:
-- 
2.43.0


From 5eadb579aac674ea1766dc6dcc57a44ae4acd541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 11/21] fix: keep all of a link whose text or target contains
 the separator again

A match such as '[a](b](c)' was split at every separator and everything
after the second one was dropped.
---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..5525897 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -162,11 +162,11 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().split("](", 1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-            split_link = match.group().split("][")
+            split_link = match.group().split("][", 1)
             split_text.append(split_link[0].strip() + "][")
             split_text.append(split_link[1].strip())
 
-- 
2.43.0


From 1fd0f7dc9c3f7b38d2f8b72936b061765a72faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 12/21] fix: do not duplicate text matched both as a link and
 as a footnote

The matches of both expressions can overlap, e.g. in '[a][b](c)', and
overlapping parts were emitted twice.
---
 markflow/_utils/textwrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 5525897..7e90502 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -137,6 +137,10 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # Part of this match was already handled as part of a previous link.
+            continue
+
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
-- 
2.43.0


From a4637420950b81fb3de420fcb041436c815364f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 13/21] fix: wrap quoted text to the width the quote marker
 leaves

---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..9f25fa9 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -36,8 +36,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -70,8 +68,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From ad4faccdfa0f527f2d35e6f7a696c8c3ad92210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 14/21] fix: strip the quote marker from every line recognised
 as quoted

---
 markflow/detectors/block_quote.py  | 2 +-
 markflow/formatters/block_quote.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..8768e52 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -15,7 +15,7 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 9f25fa9..75fc340 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -11,7 +11,7 @@ __all__ = ["MarkdownBlockQuote"]
 
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 logger = logging.getLogger(__name__)
 
-- 
2.43.0


From 3da85c4ae67a75585613ce96445b99de9c566ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 15/21] fix: a thematic break with spaces is not a bullet list

---
 markflow/detectors/_lines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..ac72db8 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -158,8 +158,10 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    return (
+        not is_indented_code_block_start_line(line)
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From b69fee21fff403bdc71dc283074d8ec7217bb44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 16/21] fix: only newlines and carriage returns end a line

---
 markflow/_utils/_utils.py                     | 23 ++++++++++++++++++-
 markflow/_utils/textwrap.py                   |  4 +++-
 markflow/formatters/block_quote.py            |  9 ++++++--
 .../formatters/link_reference_definition.py   |  6 ++---
 markflow/formatters/setext_heading.py         |  4 ++--
 markflow/reformat_markdown.py                 |  3 ++-
 6 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 4aec769..2a77536 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,20 +1,41 @@
 import contextlib
 import logging
-from typing import Iterator
+import re
+from typing import Iterator, List
 
 __all__ = [
     "get_indent",
+    "split_lines",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
 
 ELLIPSIS = "..."
+LINE_ENDING = re.compile(r"\r\n|\r|\n")
 
 
 def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
 
 
+def split_lines(text: str) -> List[str]:
+    """Split text at its line endings
+
+    Unlike `str.splitlines`, only the line endings Markdown knows separate lines. Other
+    characters (e.g. form feeds) are part of the line they stand in.
+
+    Args:
+        text: The text to split
+
+    Returns:
+        The lines of the text without their endings.
+    """
+    lines = LINE_ENDING.split(text)
+    if not lines[-1]:
+        lines.pop()
+    return lines
+
+
 def truncate_str(str_: str, length: int) -> str:
     if len(str_) <= length:
         pass
diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 7e90502..8e8dc0f 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -3,6 +3,8 @@ from typing import List, Tuple
 
 from markflow.typing import Number
 
+from ._utils import split_lines
+
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
@@ -254,7 +256,7 @@ def space_split(
 
 def wrap(text: str, width: Number) -> str:
     # TODO: Should wrap be modifying the input. Maybe assert there's no newlines?
-    lines = text.splitlines()
+    lines = split_lines(text)
     text = " ".join([line.strip() for line in lines])
 
     split_text: List[str] = [text]
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 75fc340..3730d04 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -2,7 +2,12 @@ import logging
 import re
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import (
+    get_indent,
+    redirect_info_logs_to_debug,
+    split_lines,
+    truncate_str,
+)
 from ..detectors._lines import is_explicit_block_quote_line
 from ..typing import Number
 from .base import MarkdownSection
@@ -77,7 +82,7 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in text.splitlines())
+        text = "\n".join((prefix + line).strip() for line in split_lines(text))
 
         return text
 
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..43e695f 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -25,7 +25,7 @@ https://spec.commonmark.org/0.29/#link-label
 
 import re
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -101,8 +101,8 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         # overflow lines (the label and url portions).
         if title.split()[0] in self.lines[last_index]:
             # Our title was on the line with our link
-            if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
-                lines = str_.splitlines()
+            if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
+                lines = split_lines(str_)
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
                 str_ = "\n" + wrap(title, width)
diff --git a/markflow/formatters/setext_heading.py b/markflow/formatters/setext_heading.py
index 4581361..8cb289c 100644
--- a/markflow/formatters/setext_heading.py
+++ b/markflow/formatters/setext_heading.py
@@ -24,7 +24,7 @@ blank line is needed between them.
 https://spec.commonmark.org/0.29/#setext-headings
 """
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -56,7 +56,7 @@ class MarkdownSetextHeading(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         heading_str = wrap(self.content, width)
-        heading_len = max(len(line) for line in heading_str.splitlines())
+        heading_len = max(len(line) for line in split_lines(heading_str))
         return heading_str + "\n" + self.char * heading_len
 
     def __repr__(self) -> str:
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 710d5a5..e11bfd7 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Dict, Type
 
+from ._utils import split_lines
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -42,7 +43,7 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
 
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
-    sections = parse_markdown(text.splitlines())
+    sections = parse_markdown(split_lines(text))
 
     formatters = []
     last_section_type = MarkdownSectionEnum.INVALID
-- 
2.43.0


From 3b7bd9410005d00488f9be96206ea4ac28114b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 17/21] fix: a reference whose target ends the document raised
 StopIteration

---
 markflow/detectors/link_reference_definition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..f8cabe1 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -110,9 +110,14 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            try:
+                index, line = next(indexed_line_generator)
+                title_text = line
+            except StopIteration:
+                # The URL's line was the last one
+                index += 1
+                title_text = ""
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
-- 
2.43.0


From faf872363d53d8ebf59b7a8ad315d3c6ebd882c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 18/21] fix: text starting with a single full stop raised
 IndexError

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 8e8dc0f..d93d961 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -91,7 +91,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -182,7 +182,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From 4584a08d1d8e3b8da21ed532a6ba8ea456af90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 19/21] fix: a title that did not fit replaced the link
 reference definition

---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 43e695f..2646985 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = split_lines(str_)
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From a3ba68ce0aeeb96c74351f20fa0d8aabfdc5e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 20/21] fix: a title that is not closed took the lines after it

---
 markflow/detectors/link_reference_definition.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index f8cabe1..0b86a2a 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -127,20 +127,24 @@ def split_link_reference_definition(
     else:
         quotation_character = "NO QUOTE"
 
+    end_index = index
     if quotation_character in QUOTATION_CHARACTERS:
         closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
         for index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
+            if index > end_index and not line.strip():
+                # A title can't contain a blank line
+                break
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
                     is_complete = True
-                    index += 1
+                    end_index = index + 1
                 break
 
     if is_complete:
-        link_reference_definition = lines[:index]
-        remaining_lines = lines[index:]
+        link_reference_definition = lines[:end_index]
+        remaining_lines = lines[end_index:]
 
     return link_reference_definition, remaining_lines
-- 
2.43.0


From 73a7ceec7e51989bc08539a5c276f30adbf50fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 21/21] fix: indented code ended before its last line

---
 markflow/detectors/indented_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/indented_code_block.py b/markflow/detectors/indented_code_block.py
index b9322cd..a92d236 100644
--- a/markflow/detectors/indented_code_block.py
+++ b/markflow/detectors/indented_code_block.py
@@ -44,7 +44,7 @@ def split_indented_code_block(
             if not line.strip():
                 continue
             elif get_indent(line) >= 4:
-                close_index = index
+                close_index = index + 1
             else:
                 break
 
-- 
2.43.0

