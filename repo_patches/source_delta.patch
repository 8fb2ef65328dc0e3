From 4eb4e1b888bd007d7c7ee70b30a2356ca113ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 01/13] fix: pass ignore_error down to nested to_markdown()
 calls

---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 7 +++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 7 +++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..c4f500d 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -91,7 +91,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -147,9 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..94e7337 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,10 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +89,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..c38b68c 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -98,7 +98,10 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -108,7 +111,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..2ea786b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..256c119 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -91,7 +91,7 @@ class NodeTaskList(BaseNode):
                 content_parts = []
                 for node in item.content:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From 90722c6d038d7d88cd750e6c65a4dbf18494d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 02/13] fix: keep the text when applying an indentation mark

---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From 9d3e8c8ff47db978d8e073dee27b8d4a84e611b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 03/13] fix: convert an orderedList that has no attrs

---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index c38b68c..f4c6576 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and self.attrs is not OPT
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From 95e3dce7707dc008b3898dbd88fe20d5d68ac7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 04/13] fix: convert a taskItem that has no content

---
 atlas_doc_parser/nodes/node_task_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 256c119..088f8eb 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -89,7 +89,7 @@ class NodeTaskList(BaseNode):
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
                 content_parts = []
-                for node in item.content:
+                for node in [] if item.content is OPT else item.content:
                     try:
                         md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
-- 
2.43.0


From de145e9799e5ba76c16696844e0447cd662c143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 05/13] fix: convert a table that has an empty row

---
 atlas_doc_parser/nodes/node_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 2ea786b..94f8e29 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -78,7 +78,7 @@ class NodeTable(BaseNode):
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From 863151a750b2fedf2022f9f804e8dd8583ec794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 06/13] fix: drop absent optional fields of nested dataclasses
 in to_dict()

---
 atlas_doc_parser/mark_or_node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..c8cc4f7 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -56,7 +56,10 @@ class Base(BaseFrozenModel):
         """
         Convert the dataclass to a complete dictionary with all fields.
         """
-        return remove_optional(**dataclasses.asdict(self))
+        return dataclasses.asdict(
+            self,
+            dict_factory=lambda items: remove_optional(**dict(items)),
+        )
 
     def to_kwargs(self) -> T_DATA:
         """
-- 
2.43.0


From 3065d2e49a43a6ca1c275a9c977e0a548164d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 07/13] fix: report a missing required mark attribute as
 ParamError

---
 atlas_doc_parser/marks/mark_alignment.py        | 2 +-
 atlas_doc_parser/marks/mark_background_color.py | 2 +-
 atlas_doc_parser/marks/mark_breakout.py         | 2 +-
 atlas_doc_parser/marks/mark_data_consumer.py    | 2 +-
 atlas_doc_parser/marks/mark_fragment.py         | 2 +-
 atlas_doc_parser/marks/mark_text_color.py       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/marks/mark_alignment.py b/atlas_doc_parser/marks/mark_alignment.py
index 163d95d..0aef2d2 100644
--- a/atlas_doc_parser/marks/mark_alignment.py
+++ b/atlas_doc_parser/marks/mark_alignment.py
@@ -18,7 +18,7 @@ class MarkAlignmentAttrs(Base):
         Valid values are ``"center"`` or ``"end"``.
     """
 
-    align: T.Literal["center", "end"]
+    align: T.Literal["center", "end"] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_background_color.py b/atlas_doc_parser/marks/mark_background_color.py
index 23b8733..4bb419e 100644
--- a/atlas_doc_parser/marks/mark_background_color.py
+++ b/atlas_doc_parser/marks/mark_background_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkBackgroundColorAttrs(Base):
     """Attributes for :class:`MarkBackgroundColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_breakout.py b/atlas_doc_parser/marks/mark_breakout.py
index 683a42c..2b4e27b 100644
--- a/atlas_doc_parser/marks/mark_breakout.py
+++ b/atlas_doc_parser/marks/mark_breakout.py
@@ -18,7 +18,7 @@ class MarkBreakoutAttrs(Base):
     :param width: Optional. Width value.
     """
 
-    mode: T.Literal["wide", "full-width"]
+    mode: T.Literal["wide", "full-width"] = REQ
     width: int = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_data_consumer.py b/atlas_doc_parser/marks/mark_data_consumer.py
index 7e7f10c..f6a3bb8 100644
--- a/atlas_doc_parser/marks/mark_data_consumer.py
+++ b/atlas_doc_parser/marks/mark_data_consumer.py
@@ -16,7 +16,7 @@ class MarkDataConsumerAttrs(Base):
     :param sources: Required. An array of source identifiers (minimum 1 item).
     """
 
-    sources: list[str]
+    sources: list[str] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_fragment.py b/atlas_doc_parser/marks/mark_fragment.py
index 027969a..ad2f5cb 100644
--- a/atlas_doc_parser/marks/mark_fragment.py
+++ b/atlas_doc_parser/marks/mark_fragment.py
@@ -17,7 +17,7 @@ class MarkFragmentAttrs(Base):
     :param name: Optional. A human-readable name for the fragment.
     """
 
-    localId: str
+    localId: str = REQ
     name: str = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_text_color.py b/atlas_doc_parser/marks/mark_text_color.py
index d9e9cde..111010f 100644
--- a/atlas_doc_parser/marks/mark_text_color.py
+++ b/atlas_doc_parser/marks/mark_text_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkTextColorAttrs(Base):
     """Attributes for :class:`MarkTextColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From efff89f23b2a94cd38c807f98d2ff85e16b59f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 08/13] fix: export the ParamError that the models really raise

---
 atlas_doc_parser/exc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 39623c1..6d89e43 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -5,10 +5,9 @@ Exceptions for atlas_doc_parser.
 """
 
 
-class ParamError(Exception):
-    """Raised when a parameter validation fails."""
-
-    pass
+# Raised when a parameter validation fails. The models validate their fields with
+# ``func_args``, so this has to be the very exception class ``func_args`` raises.
+from func_args.api import ParamError
 
 
 class UnimplementedTypeError(Exception):
-- 
2.43.0


From b65a368a55d16e5c12345cf5e5c00ceb092f4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 09/13] fix: do not render the OPT sentinel for a file media
 without id

---
 atlas_doc_parser/nodes/node_media.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_media.py b/atlas_doc_parser/nodes/node_media.py
index 6a11c04..23a9b9b 100644
--- a/atlas_doc_parser/nodes/node_media.py
+++ b/atlas_doc_parser/nodes/node_media.py
@@ -98,7 +98,7 @@ class NodeMedia(BaseNode):
             md = f"![{alt}]({self.attrs.url})"
             return add_style_to_markdown(md, self)
         # For internal media, return placeholder with id
-        elif self.attrs.is_file_type():
+        elif self.attrs.is_file_type() and isinstance(self.attrs.id, str):
             alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
             md = f"![{alt}](media:{self.attrs.id})"
             return add_style_to_markdown(md, self)
-- 
2.43.0


From 7a5f317305b8f98f919c7930ebed005440c1b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 10/13] fix: collapse any number of consecutive blank lines

---
 atlas_doc_parser/markdown_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index c4f500d..ca46bf3 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -41,8 +41,8 @@ def strip_double_empty_line(
     (3+ newlines) down to exactly one blank line (2 newlines).
 
     :param text: The input text that may contain excessive blank lines.
-    :param n: Number of replacement iterations to perform. Default is 3,
-        which handles up to 5 consecutive newlines being reduced to 2.
+    :param n: Minimum number of replacement iterations to perform. More are
+        performed as long as excessive blank lines are left.
     :return: Text with at most one consecutive blank line (two newlines).
 
     Example::
@@ -52,6 +52,8 @@ def strip_double_empty_line(
     """
     for _ in range(n):
         text = text.replace("\n\n\n", "\n\n")
+    while "\n\n\n" in text:
+        text = text.replace("\n\n\n", "\n\n")
     return text
 
 
-- 
2.43.0


From f2c99af5950904c504513f6c06ba5fd5f27d2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 11/13] fix: indent a nested list whose kind differs from its
 parent list

---
 atlas_doc_parser/nodes/node_bullet_list.py  | 8 +++++++-
 atlas_doc_parser/nodes/node_ordered_list.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 94e7337..7dfc11b 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -73,7 +73,13 @@ class NodeBulletList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.bulletList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index f4c6576..3a3c93c 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -99,7 +99,13 @@ class NodeOrderedList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.orderedList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
-- 
2.43.0


From f65f3bd84171a83869a03c711d9fdcfc1b4f4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 12/13] fix: separate tables, task and decision lists from the
 next block

---
 atlas_doc_parser/markdown_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index ca46bf3..2c23054 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -146,6 +146,9 @@ def doc_content_to_markdown(
                     [
                         TypeEnum.bulletList,
                         TypeEnum.orderedList,
+                        TypeEnum.taskList,
+                        TypeEnum.decisionList,
+                        TypeEnum.table,
                         TypeEnum.codeBlock,
                     ]
                 ):
-- 
2.43.0


From c85c8f1df112b91b2a620c943b61d9a8bf4515ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 13/13] fix: report a missing type of a base mark or node as
 ParamError

---
 atlas_doc_parser/mark_or_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index c8cc4f7..1ff9e58 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -103,7 +103,7 @@ class BaseMarkOrNode(Base):
     Base class for ADF marks and nodes.
     """
 
-    type: str = dataclasses.field(default_factory=REQ)
+    type: str = REQ
 
     def is_type_of(
         self,
-- 
2.43.0

