From d8adc7454d8e4905a7092dce20e04163b56f6eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 01/49] fix: a list item whose text has no content does not
 crash the parser

---
 mau/parsers/document_processors/list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..d10e984 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -30,7 +30,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    # The text of an item might contain no node.
+    last_context = content[-1].info.context if content else text.context
+    context = Context.merge_contexts(header.context, last_context)
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +73,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            # The text of an item might contain no node.
+            last_context = content[-1].info.context if content else text.context
+            context = Context.merge_contexts(header.context, last_context)
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From ddd6f9fa32e3fab9270860768f65bcfaf653ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 02/49] fix: a header whose text has no content does not crash
 the parser

---
 mau/parsers/document_processors/header.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..f3c93be 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -64,9 +64,12 @@ def header_processor(parser: DocumentParser):
     node.name = arguments.named_args.pop("name", None)
 
     # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # The text of the header might contain no node.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
-- 
2.43.0


From 792f3da0ed441828d3af1fe3e6efa3641c32abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 03/49] fix: a line that is no valid syntax is reported instead
 of crashing the parser

---
 mau/parsers/document_processors/paragraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..cf4a7cb 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -22,7 +22,8 @@ def paragraph_processor(parser: DocumentParser):
     # is EOL we know that the paragraph is ended, otherwise
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
-    line_tokens: list[Token] = []
+    # There must be at least one line of text.
+    line_tokens: list[Token] = [parser.tm.get_token(TokenType.TEXT)]
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From 8ab0d6eeee6000711fcc8a699f397384f2c2c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 04/49] fix: an empty block condition is reported instead of
 crashing the parser

---
 mau/parsers/document_processors/control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/parsers/document_processors/control.py b/mau/parsers/document_processors/control.py
index c2a8c63..6812971 100644
--- a/mau/parsers/document_processors/control.py
+++ b/mau/parsers/document_processors/control.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from mau.parsers.document_parser import DocumentParser
 
 
+from mau.parsers.base_parser import create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import (
     process_condition_with_variables,
@@ -38,6 +39,9 @@ def control_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix_token.context, condition_token.context)
 
+    if condition_node is None:
+        raise create_parser_exception("The condition is empty.", context)
+
     control = Control(
         operator,
         condition_node.variable,
-- 
2.43.0


From 248b67411e4639db7b3e6f743f902288735083d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 05/49] fix: an empty inline condition is reported instead of
 crashing the parser

---
 mau/parsers/text_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..7312261 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -868,6 +868,12 @@ class TextParser(BaseParser):
         # At the moment we support only one condition.
         condition_node = condition_parser.condition_node
 
+        if condition_node is None:
+            raise create_parser_exception(
+                f"Wrong condition syntax: '{condition}' (probably missing or incorrect comparison).",
+                condition_context,
+            )
+
         control = Control(
             operator,
             condition_node.variable,
-- 
2.43.0


From 00d19b7572e0c89a65c44842937bc6447da0790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 06/49] fix: ifeval accepts variables that are not strings

---
 mau/parsers/text_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 7312261..13ba5f0 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -922,7 +922,8 @@ class TextParser(BaseParser):
                     context=context,
                 )
 
-            result.value = variable_value
+            # The environment might contain values that are not text.
+            result.value = str(variable_value)
 
         nodes = []
         if result is not None:
-- 
2.43.0


From ffec1ae8f1e31ed40d831882db08205c00a69547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 07/49] fix: footnote and header references nested in macro
 text are resolved

---
 mau/parsers/text_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 13ba5f0..b711a41 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -361,6 +361,12 @@ class TextParser(BaseParser):
 
         return [node]
 
+    def _inherit_references(self, parser: "TextParser"):
+        # Collect the references to footnotes and headers
+        # found in text nested in a macro.
+        self.footnote_macros.extend(parser.footnote_macros)
+        self.header_links.extend(parser.header_links)
+
     def _parse_verbatim(self) -> list[Node]:
         # Parse verbatim text between backticks.
         # E.g. `text`.
@@ -509,6 +515,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._inherit_references(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -575,6 +582,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._inherit_references(parser)
             node.content = parser.nodes
 
         self.header_links.append(node)
@@ -622,6 +630,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._inherit_references(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -676,6 +685,8 @@ class TextParser(BaseParser):
             source_filename=source_filename,
         )
 
+        self._inherit_references(parser)
+
         node = MacroClassNode(
             classes,
             content=parser.nodes,
@@ -934,6 +945,7 @@ class TextParser(BaseParser):
                 *result.info.context.start_position,
                 result.info.context.source,
             )
+            self._inherit_references(parser)
             nodes = parser.nodes
 
         return nodes
-- 
2.43.0


From 51b4e56d2bf63915671652928f3ef9f0c2c4b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 08/49] fix: a blockgroup include without a group is reported
 instead of crashing the parser

---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..50caed9 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -351,7 +351,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From 1857444cafeb1c7877e290d68aa42bb2d1928008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 09/49] fix: a list start that is not a number is reported
 instead of crashing the parser

---
 mau/parsers/document_processors/list.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index d10e984..c032f97 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -166,7 +166,13 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"The start of a list must be a number or 'auto', not '{start}'.",
+                context=header.context,
+            ) from exc
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From aa87e5a36a020ba6420039563504d59dad84115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 10/49] fix: start=auto continues the items of the previous
 ordered list

---
 mau/parsers/document_parser.py          | 6 +++---
 mau/parsers/document_processors/list.py | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..77ff7df 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -109,10 +109,10 @@ class DocumentParser(BaseParser):
         self.label_buffer: LabelBuffer = LabelBuffer()
         self.control_buffer: ControlBuffer = ControlBuffer()
 
-        # The last index in the latest ordered list,
-        # used to calculate the beginning value of them
+        # The index following the last one of the latest
+        # ordered list, used as the beginning value of the
         # next one when start=auto
-        self.latest_ordered_list_index = 0
+        self.latest_ordered_list_index = 1
 
         # This is a list of files that cannot
         # be included by this file. This is a
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index c032f97..bd002f2 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -164,7 +164,6 @@ def list_processor(parser: DocumentParser):
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
     else:
         try:
             start = int(start)
@@ -173,7 +172,12 @@ def list_processor(parser: DocumentParser):
                 f"The start of a list must be a number or 'auto', not '{start}'.",
                 context=header.context,
             ) from exc
-        parser.latest_ordered_list_index = len(nodes) + start
+
+    # Only ordered lists affect the numbering,
+    # and nested lists are not items.
+    if ordered:
+        items = [i for i in nodes if isinstance(i, ListItemNode)]
+        parser.latest_ordered_list_index = start + len(items)
 
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
-- 
2.43.0


From 41aa039820b7d7a2992e3be173f6515f89e4126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 11/49] fix: a node excluded by a false condition leaves no
 trace in the document

---
 mau/parsers/document_parser.py                 | 16 ++++++++++++++++
 mau/parsers/document_processors/block.py       | 13 +++++--------
 mau/parsers/document_processors/header.py      | 13 +++++--------
 .../document_processors/horizontal_rule.py     | 13 +++++--------
 mau/parsers/document_processors/include.py     | 18 ++++++++++--------
 mau/parsers/document_processors/list.py        | 17 +++++++++--------
 mau/parsers/document_processors/paragraph.py   | 13 +++++--------
 7 files changed, 55 insertions(+), 48 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 77ff7df..c53cd75 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -221,6 +221,22 @@ class DocumentParser(BaseParser):
         # Assign the labels to the node.
         node.labels = labels
 
+    def is_excluded(self) -> bool:
+        # Check the stored control to see if the
+        # node being processed has to be excluded.
+        # An excluded node leaves no trace in the
+        # document, but consumes the arguments and
+        # the labels attached to it.
+        control = self.control_buffer.pop()
+
+        if control is None or control.process(self.environment):
+            return False
+
+        self.arguments_buffer.pop()
+        self.label_buffer.pop()
+
+        return True
+
     def _process_eol(self) -> bool:
         # This simply ignores the end of line.
 
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..eb253a2 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -45,6 +45,11 @@ def block_processor(parser: DocumentParser):
     # Get the closing delimiter.
     closing_delimiter = parser.tm.get_token(TokenType.BLOCK)
 
+    # Check the stored control. If it is False
+    # we stop processing here.
+    if parser.is_excluded():
+        return True
+
     # Find the final context.
     context = Context.merge_contexts(
         opening_delimiter.context, closing_delimiter.context
@@ -104,14 +109,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index f3c93be..9ad6aa4 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -30,6 +30,11 @@ def header_processor(parser: DocumentParser):
     # Get the text of the header.
     text_token = parser.tm.get_token(TokenType.TEXT)
 
+    # Check the stored control. If it is False
+    # we stop processing here.
+    if parser.is_excluded():
+        return True
+
     # Calculate the level of the header.
     level = len(header.value)
 
@@ -81,14 +86,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..26236bb 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -18,6 +18,11 @@ def horizontal_rule_processor(parser: DocumentParser):
     # Get the horizontal rule token.
     rule = parser.tm.get_token(TokenType.HORIZONTAL_RULE)
 
+    # Check the stored control. If it is False
+    # we stop processing here.
+    if parser.is_excluded():
+        return True
+
     # Get the stored arguments.
     # Horizontal rules can receive arguments
     # only through the arguments manager.
@@ -37,14 +42,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 50caed9..99158ff 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -67,6 +67,16 @@ def include_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix.context, content_type.context)
 
+    # Check the stored control. If it is False
+    # we discard the inline arguments and stop
+    # processing here.
+    if parser.is_excluded():
+        if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
+            parser.tm.get_token(TokenType.LITERAL, ":")
+            parser.tm.get_token(TokenType.TEXT)
+
+        return True
+
     arguments: NodeArguments | None = parser.arguments_buffer.pop()
 
     if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
@@ -119,14 +129,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index bd002f2..b679f9a 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -148,6 +148,15 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # Check the stored control. If it is False
+    # we discard the items and stop processing here.
+    if parser.is_excluded():
+        while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
+            parser.tm.get_token(TokenType.LIST)
+            parser.tm.get_token(TokenType.TEXT)
+
+        return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -191,14 +200,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index cf4a7cb..65ecea5 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -27,6 +27,11 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # Check the stored control. If it is False
+    # we stop processing here.
+    if parser.is_excluded():
+        return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -67,14 +72,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 1281fbaf0d8a007acc8bfbee90c193d711464351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 12/49] fix: the same file can be included more than once

---
 mau/parsers/document_processors/include.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 99158ff..6024961 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -185,15 +185,18 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    # The list is specific to this inclusion, as the same
+    # file can be included multiple times.
+    forbidden_includes = list(parser.forbidden_includes)
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -212,11 +215,7 @@ def _parse_mau(
 
     # Add the included URI to the list of forbidden
     # inclusions. More censorship!
-    # We check if the element is already there to
-    # prevent double inclusion but still preserve
-    # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -253,7 +252,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From f01454c7286061852beeba9380f769f0325d65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 13/49] fix: the error about a duplicate footnote shows the
 position of the block

---
 mau/parsers/document_processors/block.py  | 2 +-
 mau/parsers/managers/footnotes_manager.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index eb253a2..99bb22e 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -94,7 +94,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..8b1bad9 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -54,13 +55,13 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context or data.info.context,
             )
 
         self.bodies[name] = data
-- 
2.43.0


From 44edd5f33889ff12fbf6b41e028ccef5d21d4406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 14/49] fix: a footnote defined twice is reported also when a
 definition is in a non-isolated block

---
 mau/parsers/document_processors/block_engines/default.py | 4 +++-
 mau/parsers/managers/footnotes_manager.py                | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..6491fcd 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -40,7 +40,9 @@ def parse_block_content(
         # The footnote mentions and definitions
         # found in this block are part of the
         # main document. Import them.
-        parser.footnotes_manager.update(content_parser.footnotes_manager)
+        parser.footnotes_manager.update(
+            content_parser.footnotes_manager, content.context
+        )
 
         # The internal links and headers
         # found in this block are part of the
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 8b1bad9..bb6f923 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -71,12 +71,13 @@ class FootnotesManager:
         the list of managed nodes."""
         self.footnotes_list_nodes.append(data)
 
-    def update(self, other: FootnotesManager):
+    def update(self, other: FootnotesManager, context: Context | None = None):
         """Update footnotes, data, and footnotes nodes
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+        for name, body in other.bodies.items():
+            self.add_body(name, body, context)
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From 1b13ad16c51c22d56dc51b4844952f37f51584bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 15/49] fix: inclusions inside blocks are protected from
 recursion and reported in the output

---
 mau/parsers/document_processors/block_engines/default.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 6491fcd..7ca4ce3 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,8 +34,13 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=list(parser.forbidden_includes),
     )
 
+    # Inherit all the include calls made
+    # by the content of the block.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From 76e9c5e23fd777169652480a5f1d0fc04c6b7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 16/49] fix: references between a non-isolated block and its
 document are resolved

---
 mau/parsers/document_parser.py                | 41 +++++++++++--------
 .../block_engines/default.py                  |  2 +
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index c53cd75..6b9c73c 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -74,6 +74,7 @@ class DocumentParser(BaseParser):
         environment: Environment | None = None,
         parent_node=None,
         forbidden_includes: list[str] | None = None,
+        process_references: bool = True,
     ):
         super().__init__(tokens, message_handler, environment, parent_node)
 
@@ -122,6 +123,11 @@ class DocumentParser(BaseParser):
         # order of calls.
         self.forbidden_includes = forbidden_includes or []
 
+        # Footnotes, ToC, and header links are not
+        # processed here when they are part of
+        # the document that contains this one.
+        self.process_references = process_references
+
         # This is the final output of the parser
         self.output = DocumentParserOutput()
 
@@ -247,23 +253,24 @@ class DocumentParser(BaseParser):
     def finalise(self):
         super().finalise()
 
-        # This processes all footnotes stored in
-        # the manager merging mentions and data
-        # and updating the nodes that contain
-        # a list of footnotes.
-        self.footnotes_manager.process()
-
-        # Process ToC nodes.
-        # This operation needs to be done before
-        # we process header links, as it creates
-        # the internal IDs for headers that are
-        # used by the header links.
-        self.toc_manager.process()
-
-        # This processes all links stored in
-        # the manager linking them to the
-        # correct headers.
-        self.header_links_manager.process()
+        if self.process_references:
+            # This processes all footnotes stored in
+            # the manager merging mentions and data
+            # and updating the nodes that contain
+            # a list of footnotes.
+            self.footnotes_manager.process()
+
+            # Process ToC nodes.
+            # This operation needs to be done before
+            # we process header links, as it creates
+            # the internal IDs for headers that are
+            # used by the header links.
+            self.toc_manager.process()
+
+            # This processes all links stored in
+            # the manager linking them to the
+            # correct headers.
+            self.header_links_manager.process()
 
         # Process block groups.
         self.blockgroup_manager.process()
diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 7ca4ce3..f5fb455 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -35,6 +35,7 @@ def parse_block_content(
         start_column=start_column,
         source_filename=source_filename,
         forbidden_includes=list(parser.forbidden_includes),
+        process_references=not update,
     )
 
     # Inherit all the include calls made
@@ -53,6 +54,7 @@ def parse_block_content(
         # found in this block are part of the
         # main document. Import them.
         parser.toc_manager.update(content_parser.toc_manager)
+        parser.header_links_manager.update(content_parser.header_links_manager)
 
     return content_parser.nodes
 
-- 
2.43.0


From ec487c93fe222b384eed42d11f50721b920c76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 17/49] fix: an environment can contain both a variable and its
 children

---
 mau/environment/helpers.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..2166c0e 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -64,12 +64,36 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
                 separator,
                 output.setdefault(key, {}),
             )
+        elif isinstance(value, MutableMapping) and len(value) == 0:
+            # An empty dictionary doesn't hide
+            # other values stored under this key.
+            output.setdefault(key, {})
         else:
             output[key] = value
 
+    # Helper function to check if a part of
+    # the key is a key that contains a value.
+    # E.g. 'a.b.c' when 'a.b' is not a namespace.
+    def _has_parent_value(key):
+        parts = key.split(separator)
+
+        for i in range(1, len(parts)):
+            parent = separator.join(parts[:i])
+
+            if parent in flat and not isinstance(flat[parent], MutableMapping):
+                return True
+
+        return False
+
     result: dict = {}
 
     for key, value in flat.items():
+        # If one of the parents is a value the
+        # key cannot be nested and is stored as it is.
+        if _has_parent_value(key):
+            result[key] = value
+            continue
+
         _split(key, value, separator, result)
 
     return result
-- 
2.43.0


From 65e304e348b1dcb5faa01992df0ffe1071430a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 18/49] fix: environment variables and paths on the command
 line can contain equal signs

---
 mau/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..7967ec8 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -99,7 +99,7 @@ def load_environment_files(
 
         try:
             # Assume the filename is in the form "key=path".
-            key, value = filename.split("=")
+            key, value = filename.split("=", 1)
 
             # Create a Path from the file path.
             filepath = Path(value)
@@ -146,7 +146,12 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        key, separator, value = variable.partition("=")
+
+        if not separator:
+            raise ConfigurationError(
+                f"Error processing variable '{variable}', use KEY=VALUE"
+            )
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From c0dde06c2b7f33d879a5d254527db822d3e35ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 19/49] fix: the default output file never overwrites the input
 file

---
 mau/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..76781c7 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -284,9 +284,11 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
-    )
+    # By default, this is the name of the input file
+    # with the extension of the visitor.
+    input_name = args.input_file.removesuffix(".mau")
+    extension = visitor_class.extension.removeprefix(".")
+    output_file = args.output_file or f"{input_name}.{extension}"
 
     # Write the rendered text to
     # the selected output file.
-- 
2.43.0


From 0eaadec02d7c086591dc124f79ec42a5695ee287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 20/49] fix: an empty configuration file does not crash the
 command line

---
 mau/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/cli.py b/mau/cli.py
index 76781c7..9134273 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -190,7 +190,7 @@ def main():
     config = {}
     if args.config_file:
         with open(args.config_file, "r", encoding="utf-8") as config_file:
-            config = yaml.safe_load(config_file)
+            config = yaml.safe_load(config_file) or {}
 
     # Build the initial environment.
     environment = Environment.from_dict(config, BASE_NAMESPACE)
-- 
2.43.0


From 694d32c3c4b63adf88b6cea5be004439275217c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 21/49] fix: the Jinja visitor works without an environment

---
 mau/visitors/jinja_visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..7cc0c4b 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -348,7 +348,7 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
+        self.template_prefixes = self.environment.get("mau.visitor.templates.prefixes", [])
 
         # Load default templates.
         # A custom implementation of this visitor might
@@ -369,7 +369,7 @@ class JinjaVisitor(BaseVisitor):
 
         # Load custom templates provided as a dictionary.
         templates_env.update(
-            environment.get(
+            self.environment.get(
                 "mau.visitor.templates.custom",
                 Environment(),
             )
-- 
2.43.0


From 701c5c696252dd992d618afff959c8dd3dce7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 22/49] fix: the order of the arguments added by an alias does
 not depend on the hash seed

---
 mau/parsers/arguments_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..a0b0b38 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -235,9 +235,11 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            missing_keys = [
+                key
+                for key in replacement_args
+                if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From b6808eff608b5f28ff9d6d6de80de4c631511766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 23/49] fix: an included file that cannot be read for any
 reason is reported as an error

---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 6024961..51cd4af 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -221,7 +221,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -294,7 +294,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 39d336105e32ca521b7e1e210ea1f35e10162254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 24/49] fix: markers in source blocks support delimiters of any
 length

---
 mau/parsers/document_processors/block_engines/source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..da0d80c 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -113,7 +113,7 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
         if len(splits) < 2:
             # It's a trap! There are no separators left.
@@ -132,7 +132,7 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = marker.removeprefix(highlight_prefix) or highlight_default_style
 
             # Replace the highlight style
             # if it is an alias.
@@ -146,7 +146,7 @@ def parse_source_engine(
         # context to remove the marker.
         if marker:
             # Take into account the two colons.
-            marker_length = len(marker) + 2
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From 4fef08ce2da36776f72d6a334803c994c1b29424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 25/49] fix: a variable definition without value does not
 consume the following line

---
 mau/parsers/document_processors/variable_definition.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..289ef3c 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -38,8 +38,14 @@ def variable_definition_processor(parser: DocumentParser):
     context = Context.merge_contexts(opening_colon.context, closing_colon.context)
 
     # Get the optional variable value.
+    # Text on the following line is not
+    # part of the definition.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    next_token = parser.tm.peek_token()
+    if (
+        next_token.type == TokenType.TEXT
+        and next_token.context.start_line == closing_colon.context.start_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From 301d88f0d6872a75da6cd7accbd3fa2fd4fbf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 26/49] fix: an include with a colon and no arguments does not
 consume the following line

---
 mau/parsers/document_processors/include.py | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 51cd4af..4d4095e 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -30,7 +30,7 @@ from mau.parsers.arguments_parser import (
 )
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import TokenType
+from mau.token import Token, TokenType
 
 
 @dataclass
@@ -72,8 +72,7 @@ def include_processor(parser: DocumentParser):
     # processing here.
     if parser.is_excluded():
         if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
-            parser.tm.get_token(TokenType.LITERAL, ":")
-            parser.tm.get_token(TokenType.TEXT)
+            _get_inline_arguments(parser, context)
 
         return True
 
@@ -91,11 +90,8 @@ def include_processor(parser: DocumentParser):
                 help_text=INCLUDE_HELP,
             )
 
-        # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
-
-        # Get the inline arguments.
-        arguments_token = parser.tm.get_token(TokenType.TEXT)
+        # Get the colon and the inline arguments.
+        arguments_token = _get_inline_arguments(parser, context)
 
         arguments = process_arguments_with_variables(
             arguments_token, parser.message_handler, parser.environment
@@ -134,6 +130,25 @@ def include_processor(parser: DocumentParser):
     return True
 
 
+def _get_inline_arguments(parser: DocumentParser, context: Context) -> Token:
+    # Get the colon.
+    colon = parser.tm.get_token(TokenType.LITERAL, ":")
+
+    # Get the inline arguments. Text on the
+    # following line is not part of them.
+    if (
+        not parser.tm.peek_token_is(TokenType.TEXT)
+        or parser.tm.peek_token().context.start_line != colon.context.start_line
+    ):
+        raise create_parser_exception(
+            "Syntax error. The inline arguments are missing.",
+            context,
+            help_text=INCLUDE_HELP,
+        )
+
+    return parser.tm.get_token(TokenType.TEXT)
+
+
 def _parse_image(
     parser: DocumentParser, arguments: NodeArguments, context: Context
 ) -> IncludeImageNode:
-- 
2.43.0


From 9c0e6b45e094b37be2ba3e3cef5bb49ab3f32732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 27/49] fix: a tag or a subtype that starts with another prefix
 is isolated only once

---
 mau/parsers/arguments_parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index a0b0b38..5974c4f 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -183,13 +183,17 @@ class ArgumentsParser(BaseParser):
         # Isolate all tags.
         self.tag_nodes = self._isolate_by_prefix("#", self.unnamed_argument_nodes)
 
+        # An argument has a single prefix, so nodes
+        # that have been isolated (and whose prefix
+        # has been removed) must not be considered again.
+        nodes = [i for i in self.unnamed_argument_nodes if i not in self.tag_nodes]
+
         # Isolate all subtypes.
-        subtypes = self._isolate_by_prefix(
-            "*", self.unnamed_argument_nodes, unique=True
-        )
+        subtypes = self._isolate_by_prefix("*", nodes, unique=True)
+        nodes = [i for i in nodes if i not in subtypes]
 
         # Isolate all aliases.
-        aliases = self._isolate_by_prefix("@", self.unnamed_argument_nodes, unique=True)
+        aliases = self._isolate_by_prefix("@", nodes, unique=True)
 
         # Extract the subtype if present.
         self.subtype = next(iter(subtypes), None)
-- 
2.43.0


From 543bebb8cf1df22991bee732dc0708b144de0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 28/49] fix: an empty namespace in the environment does not
 hide its keys

---
 mau/environment/environment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..0257fe3 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -65,6 +65,13 @@ class Environment:
 
     def get(self, key, default=None):
         try:
+            # An empty namespace is not a value
+            # and must not hide the keys stored
+            # under it.
+            if self._variables[key] == {}:
+                default = self.__class__()
+                raise KeyError(key)
+
             # If the key is present in the flat
             # index we can just return the
             # corresponding value.
-- 
2.43.0


From 9c790b988c3450bd6ba988fe355d6d4f63a8b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 29/49] fix: circular references between headers do not make
 the visitors recurse forever

---
 mau/visitors/base_visitor.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 7233456..2bfd652 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -1,4 +1,5 @@
 from collections.abc import Mapping, Sequence
+from copy import copy
 from typing import Type
 
 from mau.environment.environment import Environment
@@ -9,7 +10,7 @@ from mau.message import (
     MauVisitorDebugMessage,
     MauVisitorErrorMessage,
 )
-from mau.nodes.node import Node
+from mau.nodes.node import Node, NodeLabelsMixin
 from mau.text_buffer import adjust_context, adjust_context_dict
 
 
@@ -86,6 +87,10 @@ class BaseVisitor:
         self.toc = None
         self.footnotes = None
 
+        # The referenced nodes (e.g. headers
+        # mentioned by a link) being visited.
+        self._visited_references: list[Node] = []
+
         # The message handler instance.
         self.message_handler = message_handler
 
@@ -178,7 +183,26 @@ class BaseVisitor:
         if node is None:
             return {}
 
-        return node.accept(self, **kwargs)
+        # References can be circular, e.g. when
+        # the text of a header contains a link to
+        # the header itself. In that case the
+        # innermost reference doesn't include
+        # the content of the node again.
+        if any(node is i for i in self._visited_references):
+            node = copy(node)
+            node.content = []
+
+            if isinstance(node, NodeLabelsMixin):
+                node.labels = {}
+
+            return node.accept(self, **kwargs)
+
+        self._visited_references.append(node)
+
+        try:
+            return node.accept(self, **kwargs)
+        finally:
+            self._visited_references.pop()
 
     def visitlist(self, current_node: Node, nodes_list: Sequence[Node], **kwargs):
         # Visit all the nodes in the given sequence.
-- 
2.43.0


From f901455a4b3dd038b816fe1f9d554c789cb95c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 30/49] fix: references in the body of a footnote defined in a
 non-isolated block are resolved

---
 mau/parsers/managers/footnotes_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index bb6f923..93b79ea 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -100,7 +100,10 @@ class FootnotesManager:
                 public_id=str(number),
             )
 
-            footnote.content = [node.deepcopy(parent=footnote) for node in body.content]
+            # The block is not part of the document, so
+            # the footnote takes its content. A copy would
+            # miss the references that are still unresolved.
+            footnote.content = [node.set_parent(footnote) for node in body.content]
 
             # Create the internal ID.
             footnote.internal_id = self.footnote_unique_id_function(footnote)
-- 
2.43.0


From e5c81e3ec4783e5032f0fc88dbc28c70c46cdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 31/49] fix: header links inside headers are resolved in the
 table of contents

---
 mau/parsers/document_parser.py               | 16 +++++++++++-----
 mau/parsers/managers/header_links_manager.py | 13 ++++++++-----
 mau/parsers/managers/toc_manager.py          | 15 +++++++++------
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 6b9c73c..31c41d3 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -260,18 +260,24 @@ class DocumentParser(BaseParser):
             # a list of footnotes.
             self.footnotes_manager.process()
 
-            # Process ToC nodes.
+            # Create the internal IDs of headers.
             # This operation needs to be done before
-            # we process header links, as it creates
-            # the internal IDs for headers that are
-            # used by the header links.
-            self.toc_manager.process()
+            # we process header links, as links without
+            # text change the text of the headers
+            # that contain them.
+            self.toc_manager.process_internal_ids()
 
             # This processes all links stored in
             # the manager linking them to the
             # correct headers.
             self.header_links_manager.process()
 
+            # Process ToC nodes.
+            # This operation needs to be done after
+            # we process header links, as ToC nodes
+            # contain copies of the headers.
+            self.toc_manager.process()
+
         # Process block groups.
         self.blockgroup_manager.process()
 
diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index ebd94b4..07136fe 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -53,13 +53,16 @@ class HeaderLinksManager:
         for macro in self.macros:
             try:
                 macro.header = self.headers[macro.target_name]
-
-                if not macro.content:
-                    macro.content = [
-                        node.deepcopy(parent=macro) for node in macro.header.content
-                    ]
             except KeyError as exc:
                 raise create_parser_exception(
                     f"Cannot find header with id {macro.target_name}",
                     context=macro.info.context,
                 ) from exc
+
+        # When all links are connected, give the ones
+        # without content a copy of the header's one.
+        for macro in self.macros:
+            if not macro.content:
+                macro.content = [
+                    node.deepcopy(parent=macro) for node in macro.header.content
+                ]
diff --git a/mau/parsers/managers/toc_manager.py b/mau/parsers/managers/toc_manager.py
index 8652f2b..9f262aa 100644
--- a/mau/parsers/managers/toc_manager.py
+++ b/mau/parsers/managers/toc_manager.py
@@ -144,12 +144,7 @@ class TocManager:
         self.headers.extend(other.headers)
         self.toc_nodes.extend(other.toc_nodes)
 
-    def process(self):
-        if not self.headers:
-            return
-
-        self.nested_headers = []
-
+    def process_internal_ids(self):
         # Check that all headers have a
         # unique internal ID. If not, create it.
         for header in self.headers:
@@ -160,6 +155,14 @@ class TocManager:
             internal_id = self.header_internal_id_function(header)
             header.internal_id = internal_id
 
+    def process(self):
+        if not self.headers:
+            return
+
+        self.nested_headers = []
+
+        self.process_internal_ids()
+
         # Header parent (the document)
         header_parent = self.headers[0].parent
 
-- 
2.43.0


From 69c7155e56ef2c510aee62a9ca0de30c4e9325c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 32/49] fix: nodes of an included file are children of the
 include node

---
 mau/parsers/document_processors/include.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 4d4095e..2cd45a2 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -286,11 +286,18 @@ def _parse_mau(
     # included file.
     parser.output.include_calls.extend(content_parser.output.include_calls)
 
-    return IncludeMauNode(
+    node = IncludeMauNode(
         uri,
         content=content_parser.nodes,
     )
 
+    # Assign the include node as parent
+    # to all children.
+    for i in content_parser.nodes:
+        i.parent = node
+
+    return node
+
 
 def _parse_raw(
     parser: DocumentParser, arguments: NodeArguments, context: Context
-- 
2.43.0


From 572af5ea8ec168b8854e5c25687e57c7255b4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 33/49] fix: the arguments of a copied node are independent of
 the original

---
 mau/nodes/node.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/nodes/node.py b/mau/nodes/node.py
index 6c3e4a3..2e16109 100644
--- a/mau/nodes/node.py
+++ b/mau/nodes/node.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping, Sequence
-from copy import copy
+from copy import copy, deepcopy
 from typing import TYPE_CHECKING
 
 from mau.text_buffer import Context
@@ -72,9 +72,10 @@ class Node:
         # Create a new node.
         new_node = self.__class__.__new__(self.__class__)
 
-        # Shallow copies.
+        # Arguments are mutable, so they
+        # cannot be shared with the original node.
         new_node.parent = parent
-        new_node.arguments = copy(self.arguments)
+        new_node.arguments = deepcopy(self.arguments)
         new_node.info = copy(self.info)
 
         return new_node
-- 
2.43.0


From 67c08cdce3c8e0fd79adfc4d2575a1b72ab1862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 34/49] fix: a source line ending with two delimiters has no
 marker and is kept as it is

---
 mau/parsers/document_processors/block_engines/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index da0d80c..3ff28da 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -115,8 +115,9 @@ def parse_source_engine(
         # Split without the final delimiter
         splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
-        if len(splits) < 2:
-            # It's a trap! There are no separators left.
+        if len(splits) < 2 or not splits[-1]:
+            # It's a trap! There are no separators left,
+            # or there is nothing between the separators.
             # Just add the line as it is.
             create_source_line(
                 code,
-- 
2.43.0


From 659f7d7ac3b88b90896346e138e73d406062fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 35/49] fix: an empty marker delimiter in a source block is a
 reported error

---
 mau/parsers/document_processors/block_engines/source.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 3ff28da..9fa662b 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -14,6 +14,7 @@ from mau.nodes.source import (
     SourceMarkerNode,
     SourceNode,
 )
+from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
 from mau.token import Token
 
@@ -66,6 +67,11 @@ def parse_source_engine(
 
     # Get the delimiter for markers
     marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
+    if not marker_delimiter:
+        raise create_parser_exception(
+            "The marker delimiter of a source block cannot be empty.",
+            context=content.context,
+        )
 
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
-- 
2.43.0


From d46d7bdbf81e295b09e9099fd43c6e401f54752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 36/49] fix: the marker of a source line is a child of the line

---
 mau/parsers/document_processors/block_engines/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9fa662b..dc0b2f9 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -38,6 +38,7 @@ def create_source_line(
     )
 
     if marker_node:
+        marker_node.parent = source_line_node
         source_line_node.marker = marker_node
 
     code.append(source_line_node)
-- 
2.43.0


From d00731cd020bf148bd8257875f7c22196e89e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 37/49] fix: raw and source blocks made of one empty line keep
 the line

---
 mau/parsers/document_processors/block_engines/raw.py    | 2 +-
 mau/parsers/document_processors/block_engines/source.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/raw.py b/mau/parsers/document_processors/block_engines/raw.py
index 9c06d76..d29b24f 100644
--- a/mau/parsers/document_processors/block_engines/raw.py
+++ b/mau/parsers/document_processors/block_engines/raw.py
@@ -19,7 +19,7 @@ def parse_raw_engine(
     # so we just pass it untouched in the form of
     # a RawNode per line.
 
-    if not content:
+    if content is None:
         return RawNode()
 
     # A list of content lines (raw).
diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index dc0b2f9..d9c1881 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -45,7 +45,7 @@ def create_source_line(
 
 
 def parse_source_engine(
-    parser: DocumentParser, content: Token, arguments: NodeArguments
+    parser: DocumentParser, content: Token | None, arguments: NodeArguments
 ) -> Node:
     # Parse a source block in the form
     #
@@ -63,7 +63,7 @@ def parse_source_engine(
     # Since Mau uses Pygments, the attribute language
     # is one of the languages supported by that tool.
 
-    if not content:
+    if content is None:
         return SourceNode()
 
     # Get the delimiter for markers
-- 
2.43.0


From 31b5749c63f16da3f725b2bc15ebe4f7cb39dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 38/49] fix: quoted macro arguments can contain brackets and
 escaped quotes in any position

---
 mau/parsers/text_parser.py | 47 ++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b711a41..7872f19 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -77,20 +77,24 @@ class TextParser(BaseParser):
             self.tm.peek_token_is(TokenType.LITERAL, ")")
             or self.tm.peek_token_is(TokenType.EOF)
         ):
-            # If we find double quotes we need to blindly
-            # collect everything until we meet the closing
+            # If we find double quotes at the beginning of
+            # an argument we need to blindly collect
+            # everything until we meet the closing
             # double quotes or EOL.
-            if self.tm.peek_token_is(TokenType.LITERAL, '"'):
+            if self._is_quoted_macro_arg(all_args):
                 # Consume the double quotes.
                 opening_quotes = self.tm.get_token(TokenType.LITERAL, '"')
 
                 # Collect and join everything.
                 # Stop at quotes or EOL.
+                # Escaped quotes are processed by
+                # the arguments parser.
                 text_token = self.tm.collect_join(
                     stop_tokens=[
                         Token.generate(TokenType.LITERAL, '"'),
                         EOF,
                     ],
+                    preserve_escaped_stop_tokens=True,
                 )
 
                 # As we stopped, the next token should be
@@ -107,15 +111,20 @@ class TextParser(BaseParser):
                 )
             else:
                 # No double quotes, we can proceed,
-                # until we find the closing round bracket
-                # or a comma, which is the arguments separator.
-                token = self.tm.collect_join(
-                    stop_tokens=[
-                        Token.generate(TokenType.LITERAL, ","),
-                        Token.generate(TokenType.LITERAL, ")"),
-                        EOF,
-                    ],
-                )
+                # one token at a time, as the next one
+                # might be the beginning of a quoted argument.
+                token = self.tm.get_token()
+
+                # An escape is removed in front of
+                # the closing round bracket, otherwise
+                # it is kept with the escaped token.
+                if token == Token.generate(
+                    TokenType.LITERAL, "\\"
+                ) and not self.tm.peek_token_is(TokenType.EOF):
+                    if not self.tm.peek_token_is(TokenType.LITERAL, ")"):
+                        all_args.append(token)
+
+                    token = self.tm.get_token()
 
             # We can add the arguments we found to the
             # global list.
@@ -126,6 +135,20 @@ class TextParser(BaseParser):
         # a single piece of text.
         return Token.from_token_list(all_args)
 
+    def _is_quoted_macro_arg(self, all_args: list[Token]) -> bool:
+        # Double quotes enclose an argument only when
+        # they are at the beginning of its value, so
+        # when they follow the opening round bracket,
+        # a comma, or the name of the argument.
+        if not self.tm.peek_token_is(TokenType.LITERAL, '"'):
+            return False
+
+        text = "".join(token.value for token in all_args).rstrip()
+
+        return not text or (
+            text.endswith((",", "=")) and not text.endswith(("\\,", "\\="))
+        )
+
     def _process_functions(self):
         # This is a recursive parser, so the list
         # of processing functions is pretty small.
-- 
2.43.0


From 0519b287529b0c6bd801ddbaf728e45bf91703fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 39/49] fix: a file that includes itself through a different
 path is reported as recursion

---
 mau/parsers/document_processors/include.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 2cd45a2..a8e6096 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from mau.parsers.document_parser import DocumentParser
 
 
+import os
 from dataclasses import dataclass, field
 
 from mau.environment.environment import Environment
@@ -209,7 +210,9 @@ def _parse_mau(
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in forbidden_includes:
+    # The same file can be reached through different paths.
+    forbidden_paths = [os.path.abspath(i) for i in forbidden_includes if i]
+    if os.path.abspath(uri) in forbidden_paths:
         raise create_parser_exception(
             f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
-- 
2.43.0


From 360ccf084b0896ce196daaf32be8f099e7255497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 40/49] fix: a block group item without a block can be copied

---
 mau/nodes/include.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/nodes/include.py b/mau/nodes/include.py
index b43d1a6..efaccb3 100644
--- a/mau/nodes/include.py
+++ b/mau/nodes/include.py
@@ -367,7 +367,7 @@ class BlockGroupItemNode(Node):
         # Shallow copies.
         new_node.group = self.group
         new_node.position = self.position
-        new_node.block = self.block.deepcopy(parent=new_node)
+        new_node.block = self.block.deepcopy(parent=new_node) if self.block else None
 
         return new_node
 
-- 
2.43.0


From b4b39e9b7af069600fd03510156afde0fe8c23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 41/49] fix: a namespace is not a variable for ifeval

---
 mau/parsers/text_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 7872f19..2de65d1 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -945,9 +945,11 @@ class TextParser(BaseParser):
                 )
 
             # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
+            # A namespace is not a variable.
+            try:
+                variable_value = self.environment[result.value]
+            except KeyError:
+                variable_value = None
 
             # If the variable wasn't defined yell at the user.
             if variable_value is None:
-- 
2.43.0


From 991ffed69e7f888565139c16a574a4bcea83f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 42/49] fix: errors of visits without contexts are reported

---
 mau/visitors/base_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 2bfd652..3e13e43 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -23,7 +23,7 @@ def create_visitor_message(
     additional_info: dict[str, str] | None = None,
 ):
     context = None
-    if data:
+    if data and "_context" in data:
         context = adjust_context_dict(data["_context"])
     elif node:
         context = adjust_context(node.info.context)
-- 
2.43.0


From 3ef779926d843afd4b5b0518df8a34eb80f71e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 43/49] fix: give header links their text after the links in
 the header they point to

---
 mau/parsers/managers/header_links_manager.py | 36 +++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index 07136fe..ae1c2fe 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -1,10 +1,25 @@
 from __future__ import annotations
 
+from collections.abc import Sequence
+
 from mau.nodes.header import HeaderNode
 from mau.nodes.macro import MacroHeaderNode
+from mau.nodes.node import Node, NodeContentMixin
 from mau.parsers.base_parser import create_parser_exception
 
 
+def find_header_links(nodes: Sequence[Node]) -> list[MacroHeaderNode]:
+    """Recursively extract header links from content nodes."""
+    links: list[MacroHeaderNode] = []
+    for node in nodes:
+        if isinstance(node, MacroHeaderNode):
+            links.append(node)
+        if isinstance(node, NodeContentMixin):
+            links.extend(find_header_links(node.content))
+
+    return links
+
+
 class HeaderLinksManager:
     """This manager collects headers and link macros.
     When the manager process is run, all macros
@@ -62,7 +77,20 @@ class HeaderLinksManager:
         # When all links are connected, give the ones
         # without content a copy of the header's one.
         for macro in self.macros:
-            if not macro.content:
-                macro.content = [
-                    node.deepcopy(parent=macro) for node in macro.header.content
-                ]
+            self._add_header_text(macro, [])
+
+    def _add_header_text(
+        self, macro: MacroHeaderNode, parents: list[MacroHeaderNode]
+    ):
+        # Give the macro a copy of the text of the header.
+        # That text might contain other links without content,
+        # which have to be processed before it is copied.
+        # Headers might link each other, so the links that
+        # are already being processed are skipped.
+        if macro.content or any(macro is i for i in parents):
+            return
+
+        for link in find_header_links(macro.header.content):
+            self._add_header_text(link, parents + [macro])
+
+        macro.content = [node.deepcopy(parent=macro) for node in macro.header.content]
-- 
2.43.0


From cc316f07d6f380acb3e322d3206eb9836c6bad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 44/49] fix: keep a backslash at the end of a text

---
 mau/parsers/managers/tokens_manager.py     | 6 ++++++
 mau/parsers/preprocess_variables_parser.py | 6 ++++++
 mau/parsers/text_parser.py                 | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/mau/parsers/managers/tokens_manager.py b/mau/parsers/managers/tokens_manager.py
index 4a52559..0d9a473 100644
--- a/mau/parsers/managers/tokens_manager.py
+++ b/mau/parsers/managers/tokens_manager.py
@@ -231,6 +231,12 @@ class TokensManager:
                 # Store the literal escape.
                 escape = self.get_token()
 
+                # An escape at the end of the tokens
+                # doesn't escape anything.
+                if self.peek_token_is(TokenType.EOF):
+                    tokens.append(escape)
+                    break
+
                 # We keep the escaped token if it is not
                 # a stop one, or if the preserve flag is on.
                 if self.peek_token() not in stop_tokens or preserve_escaped_stop_tokens:
diff --git a/mau/parsers/preprocess_variables_parser.py b/mau/parsers/preprocess_variables_parser.py
index caa598c..1021697 100644
--- a/mau/parsers/preprocess_variables_parser.py
+++ b/mau/parsers/preprocess_variables_parser.py
@@ -2,6 +2,7 @@ from mau.lexers.preprocess_variables_lexer import PreprocessVariablesLexer
 from mau.nodes.inline import TextNode
 from mau.nodes.node import NodeInfo
 from mau.parsers.base_parser import BaseParser, create_parser_exception
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import Token, TokenType
 
@@ -24,6 +25,11 @@ class PreprocessVariablesParser(BaseParser):
         # Check is the token is an escape backslash.
         backslash = self.tm.get_token(TokenType.LITERAL, "\\")
 
+        # A backslash at the end of the text
+        # doesn't escape anything.
+        if self.tm.peek_token_is(TokenType.EOF):
+            raise TokenError
+
         # Get the following character.
         char = self.tm.get_token()
 
diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 2de65d1..3781139 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -28,6 +28,7 @@ from mau.parsers.arguments_parser import (
 from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import ConditionParser
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import EOF, EOL, Token, TokenType
 
@@ -282,6 +283,11 @@ class TextParser(BaseParser):
         # Drop the backslash.
         backslash = self.tm.get_token(TokenType.LITERAL, "\\")
 
+        # A backslash at the end of the text
+        # doesn't escape anything.
+        if self.tm.peek_token_is(TokenType.EOF):
+            raise TokenError
+
         # Get the text.
         text = self.tm.get_token()
 
-- 
2.43.0


From e929e00c4fe96eddd4132f646d74bf3c876ad98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 45/49] fix: collect the links of a header before its text is
 copied

---
 mau/parsers/managers/header_links_manager.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index ae1c2fe..4df3b94 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -74,13 +74,24 @@ class HeaderLinksManager:
                     context=macro.info.context,
                 ) from exc
 
+        # The links contained in the text of each header.
+        # These are collected before any text is copied, as
+        # copies contain links that are not managed here.
+        links = {
+            name: find_header_links(header.content)
+            for name, header in self.headers.items()
+        }
+
         # When all links are connected, give the ones
         # without content a copy of the header's one.
         for macro in self.macros:
-            self._add_header_text(macro, [])
+            self._add_header_text(macro, links, [])
 
     def _add_header_text(
-        self, macro: MacroHeaderNode, parents: list[MacroHeaderNode]
+        self,
+        macro: MacroHeaderNode,
+        links: dict[str, list[MacroHeaderNode]],
+        parents: list[MacroHeaderNode],
     ):
         # Give the macro a copy of the text of the header.
         # That text might contain other links without content,
@@ -90,7 +101,7 @@ class HeaderLinksManager:
         if macro.content or any(macro is i for i in parents):
             return
 
-        for link in find_header_links(macro.header.content):
-            self._add_header_text(link, parents + [macro])
+        for link in links[macro.target_name]:
+            self._add_header_text(link, links, parents + [macro])
 
         macro.content = [node.deepcopy(parent=macro) for node in macro.header.content]
-- 
2.43.0


From 4ea7aea79cdbd6a8824d86559950ec69f6ff2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:35 +0000
Subject: [PATCH 46/49] fix: spaces after the type of an include are not a
 paragraph

---
 mau/lexers/document_lexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/lexers/document_lexer.py b/mau/lexers/document_lexer.py
index f3503ad..435c4d6 100644
--- a/mau/lexers/document_lexer.py
+++ b/mau/lexers/document_lexer.py
@@ -288,7 +288,9 @@ class DocumentLexer(BaseLexer):
             tokens.append(separator_token)
 
         # The arguments are optional, the value can be None.
-        if arguments:
+        # Without a separator, spaces at the end of the line
+        # are not arguments.
+        if arguments and (separator or arguments.strip(" ")):
             tokens.append(arguments_token)
 
         # Move to the next line.
-- 
2.43.0


From 98812f70b9fd35329fd8f97ffe4249d5af931d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:37 +0000
Subject: [PATCH 47/49] fix: the template chosen among equally specific ones
 depended on the order in which the system lists the files

---
 mau/visitors/jinja_visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 7cc0c4b..1f8a403 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -254,7 +254,10 @@ def _load_templates_from_path(
     preprocess = preprocess or (lambda x: x)
 
     # Scan all directories in the given path.
-    for obj in templates_path.iterdir():
+    # The operating system lists them in no particular
+    # order, and the order decides between templates
+    # of equal specificity.
+    for obj in sorted(templates_path.iterdir()):
         # If the object is a directory,
         # recursively load templates from there.
         if obj.is_dir():
-- 
2.43.0


From 6c094512446e8cf1db3712169bbf0a6daafe2a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:12 +0000
Subject: [PATCH 48/49] fix: the position of a wrong condition in a control
 macro was not that of the condition

---
 mau/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 3781139..cb10a68 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -879,7 +879,7 @@ class TextParser(BaseParser):
         # We need to find the context of the condition.
         # It is the macro name token context shifted
         # by the legth of the operator plus the colon.
-        shift = len(f"@{operator}:")
+        shift = len(name) - len(condition)
         condition_context = macro_name_token.context.clone()
         condition_context.start_column += shift
 
-- 
2.43.0


From 35705ec3be1de0cca18901d8aaf69b635df34bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 49/49] fix: an undefined variable in a definition is reported
 at its own position

---
 mau/parsers/document_processors/variable_definition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 289ef3c..31d51ed 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -41,6 +41,7 @@ def variable_definition_processor(parser: DocumentParser):
     # Text on the following line is not
     # part of the definition.
     value: str = ""
+    value_context = context
     next_token = parser.tm.peek_token()
     if (
         next_token.type == TokenType.TEXT
@@ -48,6 +49,7 @@ def variable_definition_processor(parser: DocumentParser):
     ):
         value_token = parser.tm.get_token()
         value = value_token.value
+        value_context = value_token.context
         context = Context.merge_contexts(context, value_token.context)
 
     # Process the variable according to its nature.
@@ -64,8 +66,8 @@ def variable_definition_processor(parser: DocumentParser):
         # other variables, so we need to
         # replace them.
 
-        # Unpack the text initial position.
-        start_line, start_column = context.start_position
+        # Unpack the value initial position.
+        start_line, start_column = value_context.start_position
 
         # Get the text source.
         source_filename = context.source
-- 
2.43.0

