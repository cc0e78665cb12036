From 8231e71bbe57a527d83ac9cccddc5dc4667fa4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 01/13] fix: repair symbol table entries whose LaTeX command
 was misspelt

'sim' and 'hcancel{<backspace>ackslash}' lacked their backslash (the latter
put a control character in the output); \geg and \pho are not commands.
---
 src/mathml_to_latex/syntax.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..157aa0b 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1636,7 +1636,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29FA;': '\\hcancel{||}',
     '&#x29F9;': '\\backslash',
     '&#x29F8;': '/',
-    '&#x29F7;': 'hcancel{\backslash}',
+    '&#x29F7;': '\\hcancel{\\backslash}',
     '&#x29F6;': '',
     '&#x29F5;': '\\backslash',
     '&#x29F2;': '\\Phi',
@@ -1801,12 +1801,12 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2278;': '\\not\\overset{>}{<}',
     '&#x2277;': '\\overset{>}{<}',
     '&#x2276;': '\\overset{<}{>}',
-    '&#x2275;': '\\not\\geg',
+    '&#x2275;': '\\not\\geq',
     '&#x2274;': '\\not\\leq',
-    '&#x2273;': '\\geg',
+    '&#x2273;': '\\geq',
     '&#x2272;': '\\leq',
     '&#x226C;': '',
-    '&#x2267;': '\\geg',
+    '&#x2267;': '\\geq',
     '&#x2266;&#x338;': '\\not\\leq',
     '&#x2266;': '\\leq',
     '&#x2263;': '\\overset{=}{=} ',
@@ -1960,7 +1960,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2260;': '\\neq',
     '&#x2262;': '\\equiv /',
     '&#x2249;': '\\approx /',
-    '&#x223C;': 'sim',
+    '&#x223C;': '\\sim',
     '&#x2248;': '\\approx',
     '&#x226E;': '</',
     '&lt;': '<',
@@ -2089,7 +2089,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '%CE%BF': '\\omicron',
     '%CF%80': '\\pi',
     '%CE%A0': '\\Pi',
-    '%CF%81': '\\pho',
+    '%CF%81': '\\rho',
     '%CF%83': '\\sigma',
     '%CE%A3': '\\Sigma',
     '%CF%84': '\\tau',
@@ -2756,7 +2756,7 @@ all_math_operators_by_glyph = {
   '⧺': '\\hcancel{||}',
   '⧹': '\\backslash',
   '⧸': '/',
-  '⧷': 'hcancel{\backslash}',
+  '⧷': '\\hcancel{\\backslash}',
   '⧶': '',
   '⧵': '\\backslash',
   '⧲': '\\Phi',
@@ -2924,12 +2924,12 @@ all_math_operators_by_glyph = {
   '≸': '\\not\\overset{>}{<}',
   '≷': '\\overset{>}{<}',
   '≶': '\\overset{<}{>}',
-  '≵': '\\not\\geg',
+  '≵': '\\not\\geq',
   '≴': '\\not\\leq',
-  '≳': '\\geg',
+  '≳': '\\geq',
   '≲': '\\leq',
   '≬': '',
-  '≧': '\\geg',
+  '≧': '\\geq',
   '≦̸': '\\not\\leq',
   '≦': '\\leq',
   '≣': '\\overset{=}{=} ',
@@ -3082,7 +3082,7 @@ all_math_operators_by_glyph = {
   '≠': '\\neq',
   '≢': '\\equiv /',
   '≉': '\\approx /',
-  '∼': 'sim',
+  '∼': '\\sim',
   '≈': '\\approx',
   '≮': '</',
   '<': '<',
-- 
2.43.0


From 0c1eb3a75808e3f8c4a4dc290fb1dab71eeda6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 02/13] fix: take an element's text from its text nodes only,
 and from all of them

Only the first child node was read, whatever its type: a leading comment or
processing instruction was converted as if it were the content, and text after
a comment or in a second CDATA section was lost.
---
 .../services/xml_elements_to_mathml_element.py              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..b2e0859 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,8 +20,10 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
+        value = "".join(
+            child.data
+            for child in el.childNodes
+            if child.nodeType in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
         )
 
         children = (
-- 
2.43.0


From 3637a63c24cbea0ac5919f445cf07b03c9e3663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 03/13] fix: treat a line break in the input as white space
 instead of deleting it

Deleting it joined the words on both sides: "<mi\nmathvariant=..." was rejected
and the text "if\nx" became "ifx".
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..5568f1f 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,7 +28,7 @@ class XmlToMathMLAdapter:
 
     def _remove_line_breaks(self, xml: str) -> str:
         line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        return line_break_pattern.sub(" ", xml).lstrip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From 9fcd31cfc351a9882bd97a3d1d6e18750fb4314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 04/13] fix: mfrac with bevelled="false" is a stacked fraction

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..8d77b89 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -470,7 +470,7 @@ class MFrac(ToLaTeXConverter):
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)
 
     def _is_bevelled(self) -> bool:
-        return bool(self._math_element.attributes.get("bevelled"))
+        return self._math_element.attributes.get("bevelled", "") not in ("", "false")
 
 
 class MRoot(ToLaTeXConverter):
-- 
2.43.0


From 0739fe21ac3dac861d07804a9dc0f4c17f1af82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 05/13] fix: keep every white space character of mtext as a
 word separator

Tabs, no-break spaces and other white space were dropped, joining the words.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 8d77b89..865c1eb 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -660,7 +660,7 @@ class MText(ToLaTeXConverter):
         chars = [
             (
                 Char(char, True)
-                if re.match(r"^[a-zA-Z0-9]$", char) or char == " "
+                if re.match(r"^[a-zA-Z0-9]$", char) or char.isspace()
                 else Char(char, False)
             )
             for char in value
-- 
2.43.0


From c543780b8369acd3da82ce98b527ed15e38b2c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 06/13] fix: an maction without children converts to nothing
 instead of IndexError

---
 src/mathml_to_latex/el_to_tex/usecases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 865c1eb..7b28574 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -508,6 +508,9 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if not children:
+            return ""
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From 21ed40d21fcde22ef245f0e148a721c6c51d7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 07/13] fix: separate the formulas of one document

Joining them without a space fused a trailing command with the next formula:
<mi>&#945;</mi> followed by <mi>b</mi> became the undefined \alphab.
---
 src/mathml_to_latex/converter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/converter.py b/src/mathml_to_latex/converter.py
index 348a2bf..1571d15 100644
--- a/src/mathml_to_latex/converter.py
+++ b/src/mathml_to_latex/converter.py
@@ -10,9 +10,8 @@ class MathMLToLaTeX:
             MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
             for mathml_element in mathml_elements
         ]
-        return "".join(
-            [
-                to_latex_converters.convert()
-                for to_latex_converters in mathml_elements_to_latex_converters
-            ]
-        ).strip()
+        formulas = [
+            to_latex_converters.convert()
+            for to_latex_converters in mathml_elements_to_latex_converters
+        ]
+        return " ".join([formula for formula in formulas if formula])
-- 
2.43.0


From 9e3ddfa7ebd55f9d34b1e5c93eed24461573bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 08/13] fix: repair malformed attributes without touching
 anything else

The word at the parse error was deleted everywhere in the document, text
included, and the generic pattern dropped everything after the last space of
the document, so broken input could convert to something else than its
content (a second formula, or a text mentioning the attribute, was lost).
---
 .../xml_to_mathml/services/error_handler.py   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..d6f7e33 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -19,10 +19,10 @@ class ErrorHandler:
 
         pattern = self._math_generic_missing_value()
         counter = 0
-        while re.search(pattern, xml) and counter < 5:
+        while re.search(pattern, result) and counter < 5:
             counter += 1
             # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
+            result = re.sub(pattern, r"\1", result)
         return result
 
     def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
@@ -36,17 +36,21 @@ class ErrorHandler:
         goal_line = xml.split("\n")[error_line - 1]
         word = self._get_word_at_str_pos(goal_line, error_offset)
 
+        if not word or '"' in word or "'" in word:
+            return xml
+
         pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
+        return re.sub(pattern, r"\1", xml)
 
     def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
         """
         Constructs a regex pattern to find the specified attribute
-        without a value (i.e., attribute= not followed by " or ').
+        without a value (i.e., attribute= not followed by " or '),
+        as a whole word inside a tag and outside its quoted values.
         """
         escaped_attribute = re.escape(attribute)
         regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
+            rf'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*\s){escaped_attribute}=?(?=[\s>])'
         )
         return re.compile(regex_pattern, re.MULTILINE)
 
@@ -56,15 +60,19 @@ class ErrorHandler:
         without a value within a math element.
         """
         # This pattern matches:
-        # Group 1: <... (anything up to a space)
+        # Group 1: <... (the tag up to a space, quoted values taken whole)
         # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
+        return re.compile(
+            r'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*\s)(\w+=(?!\s*["\']))', re.MULTILINE
+        )
 
     def _get_word_at_str_pos(self, string: str, pos: int) -> str:
         """
         Returns the word at the specified position in the string.
         """
+        # At the end of a tag, the word is the last one before it
+        if string[pos : pos + 1] == ">":
+            pos = len(string[:pos].rstrip(" "))
         start = pos
         end = pos
         while start > 0 and string[start - 1] != " ":
-- 
2.43.0


From f05105101fb0f200d3400136fbfbc45ee356282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 09/13] fix: an innerTable attribute in the input does not make
 a table an inner one

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 7b28574..a270f31 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -392,7 +392,7 @@ class MTable(ToLaTeXConverter):
             self._add_flag_recursive_if_name(mathml_element.children, name, flag)
 
     def _has_flag(self, flag: str) -> bool:
-        return bool(self._math_element.attributes.get(flag))
+        return self._math_element.attributes.get(flag) == flag
 
 
 class MTr(ToLaTeXConverter):
-- 
2.43.0


From 234875362027b258b340c96078829d85e35c074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 10/13] fix: repair malformed attributes next to tabs, CDATA
 sections, comments and = signs exactly

---
 .../xml_to_mathml/services/error_handler.py   | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index d6f7e33..0ff2e18 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -22,7 +22,7 @@ class ErrorHandler:
         while re.search(pattern, result) and counter < 5:
             counter += 1
             # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1", result)
+            result = re.sub(pattern, self._without_attribute, result)
         return result
 
     def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
@@ -36,21 +36,30 @@ class ErrorHandler:
         goal_line = xml.split("\n")[error_line - 1]
         word = self._get_word_at_str_pos(goal_line, error_offset)
 
-        if not word or '"' in word or "'" in word:
+        if not word or word == "/" or any(char in word for char in "<>\"'"):
             return xml
 
         pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, r"\1", xml)
+        return re.sub(pattern, self._without_attribute, xml)
+
+    def _without_attribute(self, match: re.Match) -> str:
+        """
+        Returns the matched text without the attribute in group 2, if any.
+        """
+        return match.group(1) if match.group(2) else match.group()
 
     def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
         """
         Constructs a regex pattern to find the specified attribute
         without a value (i.e., attribute= not followed by " or '),
         as a whole word inside a tag and outside its quoted values.
+        Comments, CDATA sections and processing instructions are matched whole.
         """
         escaped_attribute = re.escape(attribute)
         regex_pattern = (
-            rf'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*\s){escaped_attribute}=?(?=[\s>])'
+            r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|"
+            r'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*\s)'
+            rf'({escaped_attribute}=?(?=[\s>])(?!\s*[="\']))'
         )
         return re.compile(regex_pattern, re.MULTILINE)
 
@@ -62,8 +71,10 @@ class ErrorHandler:
         # This pattern matches:
         # Group 1: <... (the tag up to a space, quoted values taken whole)
         # Group 2: attribute= not followed by " or '
+        # or a whole comment, CDATA section or processing instruction
         return re.compile(
-            r'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*\s)(\w+=(?!\s*["\']))', re.MULTILINE
+            r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|"
+            r'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*\s)(\w+=(?!\s*[="\']))', re.MULTILINE
         )
 
     def _get_word_at_str_pos(self, string: str, pos: int) -> str:
@@ -72,11 +83,11 @@ class ErrorHandler:
         """
         # At the end of a tag, the word is the last one before it
         if string[pos : pos + 1] == ">":
-            pos = len(string[:pos].rstrip(" "))
+            pos = len(string[:pos].rstrip(" \t"))
         start = pos
         end = pos
-        while start > 0 and string[start - 1] != " ":
+        while start > 0 and string[start - 1] not in " \t":
             start -= 1
-        while end < len(string) and string[end] != " " and string[end] != ">":
+        while end < len(string) and string[end] not in " \t>":
             end += 1
         return string[start:end]
-- 
2.43.0


From 704c792c95f1e906f86a505be2bd6d8ecb895e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 11/13] fix: keep the items of a fenced table apart, so that
 commands do not fuse with letters

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index a270f31..21f375d 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -308,7 +308,7 @@ class Matrix:
 
     def apply(self, latex_contents):
         command = self._command
-        matrix = f'\\begin{{{command}}}\n{"".join(latex_contents)}\n\\end{{{command}}}'
+        matrix = f'\\begin{{{command}}}\n{" ".join(latex_contents)}\n\\end{{{command}}}'
 
         return (
             self._separators.wrap(matrix)
-- 
2.43.0


From c854ac204d3b4725d35fba5e88ddd1d307e71b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 12/13] fix: keep a command in mtext apart from a letter that
 follows it

---
 src/mathml_to_latex/el_to_tex/usecases.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 21f375d..9462128 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -678,7 +678,7 @@ class MText(ToLaTeXConverter):
                     continue
             merged_chars.append(char)
 
-        return "".join(
+        return self._join(
             [
                 (
                     MI(MIMathMlElement(char.value)).convert()
@@ -689,6 +689,15 @@ class MText(ToLaTeXConverter):
             ]
         )
 
+    def _join(self, pieces: list) -> str:
+        # a space keeps a command apart from a letter that follows it
+        latex = "".join(pieces[:1])
+        for previous, piece in zip(pieces, pieces[1:]):
+            if re.search(r"\\[a-zA-Z]+$", previous) and re.match("[a-zA-Z]", piece):
+                latex += " "
+            latex += piece
+        return latex
+
 
 class TagTypes(Enum):
     Under = 1
-- 
2.43.0


From e70257c5f9b1672aac5db1a2829d8503863202cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 13/13] fix: bases that are empty or end with a script of their
 own

x^{2}^{3} is a double superscript in TeX, and ^{2} without a base attaches
to whatever stands before it. Such bases are now put in parentheses, and
empty ones are written as {}.
---
 .../el_to_tex/services/wrapper.py             | 19 +++++++++++++++++++
 src/mathml_to_latex/el_to_tex/usecases.py     | 19 +++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/services/wrapper.py b/src/mathml_to_latex/el_to_tex/services/wrapper.py
index 4003e78..acb1ceb 100644
--- a/src/mathml_to_latex/el_to_tex/services/wrapper.py
+++ b/src/mathml_to_latex/el_to_tex/services/wrapper.py
@@ -1,4 +1,5 @@
 from typing import List
+import re
 
 class Wrapper:
     def __init__(self, op: str, close: str):
@@ -20,6 +21,24 @@ class ParenthesisWrapper(Wrapper):
             return val
         return self.wrap(val)
 
+    def wrap_if_scripted(self, val: str) -> str:
+        """
+        The base of a script: wrapped if it ends with a script itself,
+        and never empty.
+        """
+        if not val.strip():
+            return '{}'
+        return self.wrap(val) if self._ends_with_script(val) else val
+
+    def _ends_with_script(self, val: str) -> bool:
+        opened = []
+        closed = ''
+        for token in re.findall(r'\\.|[_^]?{|.', val.rstrip(), re.DOTALL):
+            closed = opened.pop() if token == '}' and opened else ''
+            if token in ('{', '_{', '^{'):
+                opened.append(token)
+        return closed in ('_{', '^{')
+
 class BracketWrapper(Wrapper):
     def __init__(self):
         super().__init__('{', '}')
diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 9462128..352ce10 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -217,8 +217,8 @@ class MSup(ToLaTeXConverter):
         base_children = base.children
         base_str = self._adapter.to_latex_converter(base).convert()
 
-        if len(base_children) <= 1:
-            return base_str
+        if len(base_children) <= 1 or not base_str.strip():
+            return self._parenthesis_wrapper.wrap_if_scripted(base_str)
 
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
 
@@ -433,8 +433,8 @@ class MSub(ToLaTeXConverter):
         base_children = base.children
         base_str = self._adapter.to_latex_converter(base).convert()
 
-        if len(base_children) <= 1:
-            return base_str
+        if len(base_children) <= 1 or not base_str.strip():
+            return self._parenthesis_wrapper.wrap_if_scripted(base_str)
 
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
 
@@ -602,8 +602,8 @@ class MSubsup(ToLaTeXConverter):
         base_children = base.children
         base_str = self._adapter.to_latex_converter(base).convert()
 
-        if len(base_children) <= 1:
-            return base_str
+        if len(base_children) <= 1 or not base_str.strip():
+            return self._parenthesis_wrapper.wrap_if_scripted(base_str)
 
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
 
@@ -752,6 +752,7 @@ class MUnderover(ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
+        self._parenthesis_wrapper = ParenthesisWrapper()
 
     def convert(self) -> str:
         name = self._math_element.name
@@ -761,7 +762,9 @@ class MUnderover(ToLaTeXConverter):
         if children_length != 3:
             raise InvalidNumberOfChildrenError(name, 3, children_length)
 
-        base = self._adapter.to_latex_converter(children[0]).convert()
+        base = self._parenthesis_wrapper.wrap_if_scripted(
+            self._adapter.to_latex_converter(children[0]).convert()
+        )
         under_content = self._adapter.to_latex_converter(children[1]).convert()
         over_content = self._adapter.to_latex_converter(children[2]).convert()
 
@@ -825,7 +828,7 @@ class MMultiscripts(ToLaTeXConverter):
 
     def _wrap_in_parenthesis_if_there_is_space(self, val: str) -> str:
         if not re.search(r"\s+", val):
-            return val
+            return self._parenthesis_wrapper.wrap_if_scripted(val)
         return self._parenthesis_wrapper.wrap(val)
 
     def _is_prescripts(self, child: MathMLElement) -> bool:
-- 
2.43.0

