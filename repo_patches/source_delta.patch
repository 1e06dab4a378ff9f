From c7af435798ac269ad7ce266446e68405daea0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 01/35] fix: keep a line break inside a tag or text as white
 space

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..c129ecb 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,7 +28,7 @@ class XmlToMathMLAdapter:
 
     def _remove_line_breaks(self, xml: str) -> str:
         line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From f6a3c4511c4559285c9cd67b0c2ef4fa2858f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 02/35] fix: read a token's whole text, not its first node
 (comments, CDATA)

---
 .../services/xml_elements_to_mathml_element.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..36bf488 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,9 +20,7 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
-        )
+        value = "" if has_children else self._get_text(el)
 
         children = (
             self.convert(
@@ -51,6 +49,13 @@ class ElementsToMathMLAdapter:
             attr_dict[attr.name] = attr_value
         return attr_dict
 
+    def _get_text(self, el: DOMElement) -> str:
+        return "".join(
+            child.nodeValue
+            for child in el.childNodes
+            if child.nodeType in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
+        )
+
     def _has_element_child(self, el: DOMElement) -> bool:
         return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
 
-- 
2.43.0


From a1cde262856746d901bf4ecb8c01563b56eb81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 03/35] fix: do not render a fraction with bevelled="false" as
 bevelled

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..8d77b89 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -470,7 +470,7 @@ class MFrac(ToLaTeXConverter):
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)
 
     def _is_bevelled(self) -> bool:
-        return bool(self._math_element.attributes.get("bevelled"))
+        return self._math_element.attributes.get("bevelled", "") not in ("", "false")
 
 
 class MRoot(ToLaTeXConverter):
-- 
2.43.0


From 3a212dc9da452846513f7fe4c3f06c1b5fab7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 04/35] fix: separate the formulas of several math elements

---
 src/mathml_to_latex/converter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/converter.py b/src/mathml_to_latex/converter.py
index 348a2bf..5395c2a 100644
--- a/src/mathml_to_latex/converter.py
+++ b/src/mathml_to_latex/converter.py
@@ -10,9 +10,8 @@ class MathMLToLaTeX:
             MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
             for mathml_element in mathml_elements
         ]
-        return "".join(
-            [
-                to_latex_converters.convert()
-                for to_latex_converters in mathml_elements_to_latex_converters
-            ]
-        ).strip()
+        formulas = [
+            to_latex_converters.convert()
+            for to_latex_converters in mathml_elements_to_latex_converters
+        ]
+        return " ".join(formula for formula in formulas if formula)
-- 
2.43.0


From abadbf2321326bdada913a72e6d82134c346011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 05/35] fix: convert a math element nested in another one only
 once

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c129ecb..3de67f2 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -34,6 +34,14 @@ class XmlToMathMLAdapter:
         ms_word_prefix_pattern = re.compile(r"mml:")
         return ms_word_prefix_pattern.sub("", xml)
 
+    def _is_inside_math(self, element: Element) -> bool:
+        parent = element.parentNode
+        while parent is not None:
+            if parent.nodeName == "math":
+                return True
+            parent = parent.parentNode
+        return False
+
     @property
     def _mathml_elements(self) -> List[Element]:
         exception = None
@@ -42,7 +50,7 @@ class XmlToMathMLAdapter:
             try:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
-                return list(elements)
+                return [el for el in elements if not self._is_inside_math(el)]
             except Exception as e:
                 self._fix_error(e)
                 exception = e
-- 
2.43.0


From 0237d2d6c2b7578afe4c99cdd53c56d2609d8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 06/35] fix: drop invisible operators instead of emitting the
 raw character or \llbracket

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++++
 src/mathml_to_latex/syntax.py             | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 8d77b89..a6ac928 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -9,6 +9,7 @@ from ..syntax import (
     math_number_by_glyph,
     all_math_operators_by_char,
     all_math_operators_by_glyph,
+    invisible_operators,
 )
 from .protocols import (
     ToLaTeXConverter,
@@ -153,6 +154,10 @@ class Operator:
         return Operator(value)._operate()
 
     def _operate(self) -> str:
+        # Invisible operators have no LaTeX counterpart and must not leak as is
+        if self._value in invisible_operators:
+            return ""
+
         # Attempt to find the LaTeX command by character
         latex_command = self._find_by_character()
         if latex_command:
diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..9fac681 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -982,6 +982,9 @@ math_number_by_glyph: Dict[str, str] = {
     '⅒': r'\dfrac{1}{10}',
 }
 
+# Function application, invisible times, invisible separator and invisible plus
+invisible_operators = {'\u2061', '\u2062', '\u2063', '\u2064'}
+
 all_math_operators_by_char: Dict[str, str] = {
     '_': '\\underline',
     '&#x23E1;': '\\underbrace',
-- 
2.43.0


From 54300952476ec2cd0cf8c25148cce8ff0cc98ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 07/35] fix: reject an empty non-toggle maction as every other
 wrong child count

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index a6ac928..dbfebe8 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -513,6 +513,11 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if not children:
+            raise InvalidNumberOfChildrenError(
+                self._math_element.name, 1, 0, "at least"
+            )
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From e10f68811307fc21cc68a1619378661524086c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 08/35] fix: group a compound script base that is wrapped in
 single-child rows

---
 src/mathml_to_latex/el_to_tex/usecases.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index dbfebe8..29c5747 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -198,6 +198,23 @@ class MN(ToLaTeXConverter):
         return converted_value or normalized_value
 
 
+ROW_NAMES = ("mrow", "mpadded", "mstyle")
+SCRIPT_NAMES = ("msub", "msup", "msubsup", "munderover", "mmultiscripts")
+
+
+def is_compound(element: MathMLElement) -> bool:
+    """
+    Whether the element is, below rows of a single child, a row of several
+    children or a script: a script put after it as is would miss its target.
+    """
+    while element.name in ROW_NAMES and len(element.children) == 1:
+        element = element.children[0]
+
+    return element.name in SCRIPT_NAMES or (
+        element.name in ROW_NAMES and len(element.children) > 1
+    )
+
+
 class MSup(ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
@@ -222,7 +239,7 @@ class MSup(ToLaTeXConverter):
         base_children = base.children
         base_str = self._adapter.to_latex_converter(base).convert()
 
-        if len(base_children) <= 1:
+        if len(base_children) <= 1 and not is_compound(base):
             return base_str
 
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
@@ -438,7 +455,7 @@ class MSub(ToLaTeXConverter):
         base_children = base.children
         base_str = self._adapter.to_latex_converter(base).convert()
 
-        if len(base_children) <= 1:
+        if len(base_children) <= 1 and not is_compound(base):
             return base_str
 
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
@@ -609,7 +626,7 @@ class MSubsup(ToLaTeXConverter):
         base_children = base.children
         base_str = self._adapter.to_latex_converter(base).convert()
 
-        if len(base_children) <= 1:
+        if len(base_children) <= 1 and not is_compound(base):
             return base_str
 
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
-- 
2.43.0


From 1493bc6348d523823d9ed4d72c8cc91152991b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 09/35] fix: group a compound base of munderover and a script
 base of mmultiscripts

---
 src/mathml_to_latex/el_to_tex/usecases.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 29c5747..f4d9705 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -780,6 +780,9 @@ class MUnderover(ToLaTeXConverter):
         under_content = self._adapter.to_latex_converter(children[1]).convert()
         over_content = self._adapter.to_latex_converter(children[2]).convert()
 
+        if is_compound(children[0]):
+            base = BracketWrapper().wrap(base)
+
         return f"{base}_{{{under_content}}}^{{{over_content}}}"
 
 
@@ -801,7 +804,7 @@ class MMultiscripts(ToLaTeXConverter):
 
         return (
             self._prescript_latex()
-            + self._wrap_in_parenthesis_if_there_is_space(base_content)
+            + self._wrap_base_in_parenthesis(base_content)
             + self._postscript_latex()
         )
 
@@ -838,8 +841,9 @@ class MMultiscripts(ToLaTeXConverter):
 
         return f"_{{{sub_latex}}}^{{{sup_latex}}}"
 
-    def _wrap_in_parenthesis_if_there_is_space(self, val: str) -> str:
-        if not re.search(r"\s+", val):
+    def _wrap_base_in_parenthesis(self, val: str) -> str:
+        base = self._math_element.children[0]
+        if not re.search(r"\s+", val) and not is_compound(base):
             return val
         return self._parenthesis_wrapper.wrap(val)
 
-- 
2.43.0


From 44410f89cef55b475ec220ed5367ed578bc5dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 10/35] fix: keep every script pair of mmultiscripts, not only
 the first

---
 src/mathml_to_latex/el_to_tex/usecases.py | 42 ++++++++++-------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index f4d9705..ddce5d6 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -809,37 +809,33 @@ class MMultiscripts(ToLaTeXConverter):
         )
 
     def _prescript_latex(self) -> str:
-        children = self._math_element.children
-
-        if len(children) >= 4 and self._is_prescripts(children[1]):
-            sub = children[2]
-            sup = children[3]
-        elif len(children) >= 6 and self._is_prescripts(children[3]):
-            sub = children[4]
-            sup = children[5]
-        else:
-            return ""
+        children = self._math_element.children[1:]
+        scripts = []
 
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
+        for index, child in enumerate(children):
+            if self._is_prescripts(child):
+                scripts = children[index + 1 :]
+                break
 
-        return f"\\_{{{sub_latex}}}^{{{sup_latex}}}"
+        return "".join([f"\\{pair}" for pair in self._script_pairs(scripts)])
 
     def _postscript_latex(self) -> str:
-        children = self._math_element.children
+        scripts = []
 
-        if len(children) < 3 or (
-            len(children) >= 1 and self._is_prescripts(children[1])
-        ):
-            return ""
+        for child in self._math_element.children[1:]:
+            if self._is_prescripts(child):
+                break
+            scripts.append(child)
 
-        sub = children[1]
-        sup = children[2]
+        # A second pair on the same base is a double subscript for LaTeX
+        return "{}".join(self._script_pairs(scripts))
 
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
+    def _script_pairs(self, scripts: List[MathMLElement]) -> List[str]:
+        latex = [self._adapter.to_latex_converter(el).convert() for el in scripts]
+        if len(latex) % 2:
+            latex.append("")
 
-        return f"_{{{sub_latex}}}^{{{sup_latex}}}"
+        return [f"_{{{sub}}}^{{{sup}}}" for sub, sup in zip(latex[::2], latex[1::2])]
 
     def _wrap_base_in_parenthesis(self, val: str) -> str:
         base = self._math_element.children[0]
-- 
2.43.0


From 173b3acf872904043cc516a7e9e11712ccb2adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 11/35] fix: keep a non-breaking space between the words of
 mtext

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index ddce5d6..bb4ce85 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -687,7 +687,7 @@ class MText(ToLaTeXConverter):
         chars = [
             (
                 Char(char, True)
-                if re.match(r"^[a-zA-Z0-9]$", char) or char == " "
+                if re.match(r"^[a-zA-Z0-9]$", char) or char.isspace()
                 else Char(char, False)
             )
             for char in value
-- 
2.43.0


From fff09a62e655f8060dfbb23094e2e1e1591aa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 12/35] fix: do not fuse a command of mtext with the letter
 that follows it

---
 src/mathml_to_latex/el_to_tex/usecases.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index bb4ce85..77407df 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -702,16 +702,19 @@ class MText(ToLaTeXConverter):
                     continue
             merged_chars.append(char)
 
-        return "".join(
-            [
-                (
-                    MI(MIMathMlElement(char.value)).convert()
-                    if not char.is_alphanumeric
-                    else TextCommand(attributes.get("mathvariant")).apply(char.value)
-                )
-                for char in merged_chars
-            ]
-        )
+        latex = ""
+        for char in merged_chars:
+            piece = (
+                MI(MIMathMlElement(char.value)).convert()
+                if not char.is_alphanumeric
+                else TextCommand(attributes.get("mathvariant")).apply(char.value)
+            )
+            # A letter right after a command would become part of its name
+            if re.search(r"\\[a-zA-Z]+$", latex) and piece[:1].isalpha():
+                latex += " "
+            latex += piece
+
+        return latex
 
 
 class TagTypes(Enum):
-- 
2.43.0


From e35b801e39ce94689e890f2a7518332a547e2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 13/35] fix: escape the characters that are special to LaTeX in
 mi, mo, mn and mtext

---
 src/mathml_to_latex/el_to_tex/usecases.py |  6 +++++-
 src/mathml_to_latex/syntax.py             | 13 +++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 77407df..0a21b22 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -195,7 +195,11 @@ class MN(ToLaTeXConverter):
         normalized_value = self._normalizer.normalize(self._math_element.value).strip()
         converted_value = math_number_by_glyph.get(normalized_value, "")
 
-        return converted_value or normalized_value
+        return converted_value or self._escape(normalized_value)
+
+    def _escape(self, value: str) -> str:
+        # As is, "%" comments out the rest of the formula and "&" ends a cell
+        return re.sub(r"[%#$&_{}]", r"\\\g<0>", value)
 
 
 ROW_NAMES = ("mrow", "mpadded", "mstyle")
diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 9fac681..db83739 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -529,6 +529,11 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x3B2;': '\\beta',
     '&#x3B1;': '\\alpha',
     '&#x221E;': '\\infty',
+    '{': '\\{',
+    '}': '\\}',
+    '_': '\\_',
+    '^': '\\text{\\textasciicircum}',
+    '~': '\\text{\\textasciitilde}',
     '\u202c': '\\text{\\textdir TRT}',
     '\u200e': '\\text{\\textdir LTR}',
 }
@@ -2063,8 +2068,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2309;': '\\rceil',
     '&#x2308;': '\\lceil',
     '&#x2016;': '\\parallel',
-    '}': '\\left.\\right}',
-    '{': '\\left{\\right.',
+    '}': '\\left.\\right\\}',
+    '{': '\\left\\{\\right.',
     ']': '\\left]\\right.',
     '[': '\\left[\\right.',
     ')': '\\left.\\right)',
@@ -3182,8 +3187,8 @@ all_math_operators_by_glyph = {
   '⌉': '\\rceil',
   '⌈': '\\lceil',
   '‖': '\\parallel',
-  '}': '\\left.\\right}',
-  '{': '\\left{\\right.',
+  '}': '\\left.\\right\\}',
+  '{': '\\left\\{\\right.',
   ']': '\\left]\\right.',
   '[': '\\left[\\right.',
   ')': '\\left.\\right)',
-- 
2.43.0


From 0235892743629c79fa96fdfbb083eec729d44215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 14/35] fix: protect a closing square bracket in the index of a
 root

---
 src/mathml_to_latex/el_to_tex/usecases.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 0a21b22..bf0d925 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -515,6 +515,10 @@ class MRoot(ToLaTeXConverter):
         content = self._adapter.to_latex_converter(children[0]).convert()
         root_index = self._adapter.to_latex_converter(children[1]).convert()
 
+        # The first "]" would end the optional argument, as in a root of a root
+        if "]" in root_index:
+            root_index = BracketWrapper().wrap(root_index)
+
         return f"\\sqrt[{root_index}]{{{content}}}"
 
 
-- 
2.43.0


From c6fe12c5292ee2be5abb53d1cb46696cdbb38dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 15/35] fix: ignore white space between the separators of
 mfenced

---
 src/mathml_to_latex/el_to_tex/usecases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index bf0d925..c4856b4 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -365,7 +365,8 @@ class MFenced(ToLaTeXConverter):
         self._adapter = adapter
         self._open = self._math_element.attributes.get("open", "")
         self._close = self._math_element.attributes.get("close", "")
-        self._separators = list(self._math_element.attributes.get("separators", ""))
+        separators = self._math_element.attributes.get("separators", "")
+        self._separators = list("".join(separators.split()))
 
     def convert(self) -> str:
         latex_children = [
-- 
2.43.0


From c7ebb02c7d8ec4f6f29aeaa46aed601071f9c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 16/35] fix: keep equal fences around a matrix instead of
 turning them into brackets

---
 src/mathml_to_latex/el_to_tex/usecases.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index c4856b4..3ae5836 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -307,8 +307,8 @@ class Separators:
     def are_parallels(self) -> bool:
         return self._compare("||", "||")
 
-    def are_not_equal(self) -> bool:
-        return self._open != self._close
+    def are_empty(self) -> bool:
+        return self._compare("", "")
 
     def _compare(self, open_to_compare: str, close_to_compare: str) -> bool:
         return self._open == open_to_compare and self._close == close_to_compare
@@ -354,9 +354,9 @@ class Matrix:
             return "vmatrix"
         if self._separators.are_parallels():
             return "Vmatrix"
-        if self._separators.are_not_equal():
-            return self._generic_command
-        return "bmatrix"
+        if self._separators.are_empty():
+            return "bmatrix"
+        return self._generic_command
 
 
 class MFenced(ToLaTeXConverter):
-- 
2.43.0


From a01babdc41a544ff6dd71e84a7783e87a7137433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 17/35] fix: separate what stands beside a table in a fence

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 3ae5836..dc4b7e2 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -334,7 +334,7 @@ class Matrix:
 
     def apply(self, latex_contents):
         command = self._command
-        matrix = f'\\begin{{{command}}}\n{"".join(latex_contents)}\n\\end{{{command}}}'
+        matrix = f'\\begin{{{command}}}\n{" ".join(latex_contents)}\n\\end{{{command}}}'
 
         return (
             self._separators.wrap(matrix)
-- 
2.43.0


From 0b3fc8f4c0b838de0b19197f83295684ff43bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 18/35] fix: strip the mml: prefix from tags, not from the text

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 3de67f2..daa9676 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -31,7 +31,7 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"mml:")
+        ms_word_prefix_pattern = re.compile(r"(?<=[<\s/])mml:(?=[^<>]*>)")
         return ms_word_prefix_pattern.sub("", xml)
 
     def _is_inside_math(self, element: Element) -> bool:
-- 
2.43.0


From e8ee6567e64249396ed89c81aa3e13a73e82473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 19/35] fix: repair attributes without a value only where they
 stand, without truncating the document

---
 .../xml_to_mathml/services/error_handler.py   | 74 ++++---------------
 1 file changed, 15 insertions(+), 59 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..862dba8 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -3,72 +3,28 @@ import re
 
 
 class ErrorHandler:
-    def __init__(self):
-        self.error_locator = {}
+    # A start tag; a quoted attribute value may hold any character
+    _start_tag = re.compile(r"""<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>""")
+
+    # An attribute of a start tag: its quoted value is group 1, if it has one
+    _attribute = re.compile(
+        r"""\s+[^\s"'<>/=]+(\s*=\s*(?:"[^"]*"|'[^']*'))?(?:\s*=[^\s"'<>/]*)?"""
+    )
 
     def fix_error(self, xml: str, error: Exception) -> str:
         if not isinstance(error, ExpatError):
             return xml
 
-        return self._fix_missing_attribute(error, xml)
-
-    def _fix_missing_attribute(self, error: ExpatError, xml: str) -> str:
-        result = self._fix_missing_attribute_value(error, xml)
-        if result != xml:
-            return result
-
-        pattern = self._math_generic_missing_value()
-        counter = 0
-        while re.search(pattern, xml) and counter < 5:
-            counter += 1
-            # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
-        return result
-
-    def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
-        error_code = error.code
-        if error_code != 4:
-            return xml
-
-        error_line = error.lineno
-        error_offset = error.offset
-
-        goal_line = xml.split("\n")[error_line - 1]
-        word = self._get_word_at_str_pos(goal_line, error_offset)
+        return self._fix_missing_attribute(xml)
 
-        pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
-
-    def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
+    def _fix_missing_attribute(self, xml: str) -> str:
         """
-        Constructs a regex pattern to find the specified attribute
-        without a value (i.e., attribute= not followed by " or ').
+        Removes, from the start tags only, the attributes without a quoted value
+        (attr, attr= or attr=value).
         """
-        escaped_attribute = re.escape(attribute)
-        regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
+        return self._start_tag.sub(
+            lambda tag: self._attribute.sub(self._keep_if_quoted, tag.group()), xml
         )
-        return re.compile(regex_pattern, re.MULTILINE)
-
-    def _math_generic_missing_value(self) -> re.Pattern:
-        """
-        Constructs a generic regex pattern to find any attribute
-        without a value within a math element.
-        """
-        # This pattern matches:
-        # Group 1: <... (anything up to a space)
-        # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
 
-    def _get_word_at_str_pos(self, string: str, pos: int) -> str:
-        """
-        Returns the word at the specified position in the string.
-        """
-        start = pos
-        end = pos
-        while start > 0 and string[start - 1] != " ":
-            start -= 1
-        while end < len(string) and string[end] != " " and string[end] != ">":
-            end += 1
-        return string[start:end]
+    def _keep_if_quoted(self, attribute: re.Match) -> str:
+        return attribute.group() if attribute.group(1) else ""
-- 
2.43.0


From b61d86833745f9096b877b952fea4df750a1cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 20/35] fix: render operators mapped to ASCIIMath leftovers or
 a wrong symbol as LaTeX commands

---
 src/mathml_to_latex/syntax.py | 58 +++++++++++++++++------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index db83739..5e4f306 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -446,13 +446,13 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x2203;': '\\exists',
     '&#x2200;': '\\forall',
     '&#x21D4;': '\\iff',
-    '&#x21D2;': '=>',
+    '&#x21D2;': '\\Rightarrow',
     '&#xAC;': '\\neg',
     '&#x2124;': '\\mathbb{Z}',
     '&#x211D;': '\\mathbb{R}',
     '&#x211A;': '\\mathbb{Q}',
     '&#x2115;': '\\mathbb{N}',
-    '&#x2102;': 'CC',
+    '&#x2102;': '\\mathbb{C}',
     '&#x25A1;': '\\square',
     '&#x22C4;': '\\diamond',
     '&#x25B3;': '\\triangle',
@@ -480,9 +480,9 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x220F;': '\\prod',
     '&#x2211;': '\\sum',
     '&#x2299;': '\\bigodot',
-    '&#x2297;': '\\bigoplus',
-    '&#x2295;': 'o+',
-    '&#x2218;': '@',
+    '&#x2297;': '\\otimes',
+    '&#x2295;': '\\oplus',
+    '&#x2218;': '\\circ',
     '&#x22C8;': '\\bowtie',
     '&#x22CA;': '\\rtimes',
     '&#x22C9;': '\\ltimes',
@@ -572,9 +572,9 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '∏': r'\prod',
     '∑': r'\sum',
     '⊙': r'\bigodot',
-    '⊗': r'\bigoplus',
-    '⊕': 'o+',
-    '∘': '@',
+    '⊗': '\\otimes',
+    '⊕': '\\oplus',
+    '∘': '\\circ',
     '⋈': r'\bowtie',
     '⋊': r'\rtimes',
     '⋉': r'\ltimes',
@@ -738,7 +738,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '⎜': r'\mid',
     'ħ': r'\hbar',
     'ፈ': ' ',
-    '⦨': r'\llbracket',
+    '⦨': '\\measuredangle',
     'ế': r'\hat{e}',
     '¢': r'\cent',
     '⤹': r'\downarrow',
@@ -1141,7 +1141,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x229F;': '\\boxminus',
     '&#x229E;': '\\boxplus',
     '&#x2214;': '\\dot{+}',
-    '&#x2213;': '+-',
+    '&#x2213;': '\\mp',
     '&#x2212;': '-',
     '&#xB1;': '\\pm',
     '-': '-',
@@ -1571,7 +1571,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A64;': '',
     '&#x2A63;': '\\underset{=}{\\vee}',
     '&#x2A62;': '\\overset{=}{\\vee}',
-    '&#x2A61;': 'ul(vv)',
+    '&#x2A61;': '\\underline{\\vee}',
     '&#x2A60;': '\\underset{=}{\\wedge}',
     '&#x2A5F;': '\\underline{\\wedge}',
     '&#x2A5E;': '\\overset{=}{\\wedge}',
@@ -1644,7 +1644,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29FA;': '\\hcancel{||}',
     '&#x29F9;': '\\backslash',
     '&#x29F8;': '/',
-    '&#x29F7;': 'hcancel{\backslash}',
+    '&#x29F7;': '\\hcancel{\\backslash}',
     '&#x29F6;': '',
     '&#x29F5;': '\\backslash',
     '&#x29F2;': '\\Phi',
@@ -1913,8 +1913,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22EA;': '\\not\\triangleleft',
     '&#x22D9;': '\\ggg',
     '&#x22D8;': '\\lll',
-    '&#x22D7;': '*>',
-    '&#x22D6;': '<*',
+    '&#x22D7;': '\\gtrdot',
+    '&#x22D6;': '\\lessdot',
     '&#x22D4;': '\\pitchfork',
     '&#x22CC;': '',
     '&#x22CB;': '',
@@ -1960,7 +1960,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '==': '==',
     '=': '=',
     ':=': ':=',
-    '/=': '=',
+    '/=': '/=',
     '-=': '-=',
     '+=': '+=',
     '*=': '*=',
@@ -1968,11 +1968,11 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2260;': '\\neq',
     '&#x2262;': '\\equiv /',
     '&#x2249;': '\\approx /',
-    '&#x223C;': 'sim',
+    '&#x223C;': '\\sim',
     '&#x2248;': '\\approx',
-    '&#x226E;': '</',
+    '&#x226E;': '\\nless',
     '&lt;': '<',
-    '&#x226F;': '>/',
+    '&#x226F;': '\\ngtr',
     '>=': '>=',
     '>': '>',
     '&#x2265;': '\\geq',
@@ -1993,7 +1993,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x220C;': '\\not\\in',
     '&#x2209;': '\\notin',
     '&#x2208;': '\\in',
-    '&#x2201;': 'C',
+    '&#x2201;': '\\complement',
     '&#x2204;': '\\nexists',
     '&#x2203;': '\\exists',
     '&#x2200;': '\\forall',
@@ -2261,7 +2261,7 @@ all_math_operators_by_glyph = {
   '⊟': '\\boxminus',
   '⊞': '\\boxplus',
   '∔': '\\dot{+}',
-  '∓': '+-',
+  '∓': '\\mp',
   '−': '-',
   '±': '\\pm',
   '-': '-',
@@ -2690,7 +2690,7 @@ all_math_operators_by_glyph = {
   '⩤': '',
   '⩣': '\\underset{=}{\\vee}',
   '⩢': '\\overset{=}{\\vee}',
-  '⩡': 'ul(vv)',
+  '⩡': '\\underline{\\vee}',
   '⩠': '\\underset{=}{\\wedge}',
   '⩟': '\\underline{\\wedge}',
   '⩞': '\\overset{=}{\\wedge}',
@@ -2764,7 +2764,7 @@ all_math_operators_by_glyph = {
   '⧺': '\\hcancel{||}',
   '⧹': '\\backslash',
   '⧸': '/',
-  '⧷': 'hcancel{\backslash}',
+  '⧷': '\\hcancel{\\backslash}',
   '⧶': '',
   '⧵': '\\backslash',
   '⧲': '\\Phi',
@@ -3035,8 +3035,8 @@ all_math_operators_by_glyph = {
   '⋪': '\\not\\triangleleft',
   '⋙': '\\ggg',
   '⋘': '\\lll',
-  '⋗': '*>',
-  '⋖': '<*',
+  '⋗': '\\gtrdot',
+  '⋖': '\\lessdot',
   '⋔': '\\pitchfork',
   '⋌': '',
   '⋋': '\\bowtie',
@@ -3082,7 +3082,7 @@ all_math_operators_by_glyph = {
   '==': '==',
   '=': '=',
   ':=': ':=',
-  '/=': '=',
+  '/=': '/=',
   '-=': '-=',
   '+=': '+=',
   '*=': '*=',
@@ -3090,11 +3090,11 @@ all_math_operators_by_glyph = {
   '≠': '\\neq',
   '≢': '\\equiv /',
   '≉': '\\approx /',
-  '∼': 'sim',
+  '∼': '\\sim',
   '≈': '\\approx',
-  '≮': '</',
+  '≮': '\\nless',
   '<': '<',
-  '≯': '>/',
+  '≯': '\\ngtr',
   '>=': '>=',
   '>': '>',
   '≥': '\\geq',
@@ -3115,7 +3115,7 @@ all_math_operators_by_glyph = {
   '∌': '\\not\\in',
   '∉': '\\notin',
   '∈': '\\in',
-  '∁': 'C',
+  '∁': '\\complement',
   '∄': '\\nexists',
   '∃': '\\exists',
   '∀': '\\forall',
-- 
2.43.0


From e80e6b64322ff29e7c959de26d17f8642156a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 21/35] fix: keep superscript digits of mo as superscripts

---
 src/mathml_to_latex/syntax.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 5e4f306..6a4a24e 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1028,11 +1028,11 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2C7;': '',
     '&#x2C6;': '\\hat',
     '&#xBA;': 'o',
-    '&#xB9;': '1',
+    '&#xB9;': '^{1}',
     '&#xB8;': '¸',
     '&#xB4;': '´',
-    '&#xB3;': '3',
-    '&#xB2;': '2',
+    '&#xB3;': '^{3}',
+    '&#xB2;': '^{2}',
     '&#xB0;': '\\circ',
     '&#xAF;': '\\bar',
     '&#xAA;': 'a',
@@ -2150,11 +2150,11 @@ all_math_operators_by_glyph = {
   'ˇ': '',
   'ˆ': '\\hat',
   'º': 'o',
-  '¹': '1',
+  '¹': '^{1}',
   '¸': ',',
   '´': '´',
-  '³': '3',
-  '²': '2',
+  '³': '^{3}',
+  '²': '^{2}',
   '°': '\\circ',
   '¯': '\\bar',
   'ª': 'a',
-- 
2.43.0


From 7c56f06f2474ca0e792225feab0d5d4e9718a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 22/35] fix: do not blank out diagonal arrows and three
 characters of mi

---
 src/mathml_to_latex/syntax.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 6a4a24e..03217d9 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -641,10 +641,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     "↛'": r'\nrightarrow',
     '†': r'\dagger',
     'เ': r'\prime',
-    '白': ' ',
-    '⿱': ' ',
     'ℸ': r'\wp',
-    '픀': ' ',
     'ⁿ': r'^{n}',
     '✔': r'\checkmark',
     '✗': r'\times',
@@ -2356,23 +2353,8 @@ all_math_operators_by_glyph = {
   '⤴': '\\uparrow',
   '⤳': '\\rightarrow',
   '⤲': '\\leftarrow',
-  '⤱': ' ',
-  '⤰': ' ',
-  '⤯': ' ',
-  '⤮': ' ',
-  '⤭': ' ',
   '⤬': '\\times',
   '⤫': '\\times',
-  '⤪': ' ',
-  '⤩': ' ',
-  '⤨': ' ',
-  '⤧': ' ',
-  '⤦': ' ',
-  '⤥': ' ',
-  '⤤': ' ',
-  '⤣': ' ',
-  '⤢': ' ',
-  '⤡': ' ',
   '⤠': '\\mapsto\\cdot',
   '⤟': '\\cdot\\leftarrow',
   '⤞': '\\rightarrow\\cdot',
-- 
2.43.0


From db2753639735e4b7564b531e7639eb5e60215d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 23/35] fix: render brackets as characters, not as display math
 delimiters or a line break

---
 src/mathml_to_latex/syntax.py | 42 +++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 03217d9..5b63e96 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -887,7 +887,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     'ₙ': r'_{n}',
     '▫': r'\square',
     '●': r'\circle',
-    '”': r'\\"',
+    '”': '"',
 }
 
 math_number_by_glyph: Dict[str, str] = {
@@ -2023,26 +2023,26 @@ all_math_operators_by_char: Dict[str, str] = {
     ';': ';',
     '&#x29FD;': '\\}',
     '&#x29FC;': '\\{',
-    '&#x2998;': '\\]',
-    '&#x2997;': '\\[',
+    '&#x2998;': ']',
+    '&#x2997;': '[',
     '&#x2996;': '\\ll',
     '&#x2995;': '\\gg',
     '&#x2994;': '\\gg',
     '&#x2993;': '\\ll',
     '&#x2992;': '\\gg',
     '&#x2991;': '\\ll',
-    '&#x2990;': '\\]',
-    '&#x298F;': '\\]',
-    '&#x298E;': '\\]',
-    '&#x298D;': '\\[',
-    '&#x298C;': '\\[',
-    '&#x298B;': '\\]',
+    '&#x2990;': ']',
+    '&#x298F;': '[',
+    '&#x298E;': ']',
+    '&#x298D;': '[',
+    '&#x298C;': ']',
+    '&#x298B;': '[',
     '&#x298A;': '\\triangleright',
     '&#x2989;': '\\triangleleft',
     '&#x2988;': '|\\)',
     '&#x2987;': '\\(|',
-    '&#x2986;': '|\\)',
-    '&#x2985;': '\\(\\(',
+    '&#x2986;': '))',
+    '&#x2985;': '((',
     '&#x2984;': '|\\}',
     '&#x2983;': '\\{|',
     '&#x2980;': '\\||',
@@ -3129,26 +3129,26 @@ all_math_operators_by_glyph = {
   ';': ';',
   '⧽': '\\}',
   '⧼': '\\{',
-  '⦘': '\\]',
-  '⦗': '\\[',
+  '⦘': ']',
+  '⦗': '[',
   '⦖': '\\ll',
   '⦕': '\\gg',
   '⦔': '\\gg',
   '⦓': '\\ll',
   '⦒': '\\gg',
   '⦑': '\\ll',
-  '⦐': '\\]',
-  '⦏': '\\]',
-  '⦎': '\\]',
-  '⦍': '\\[',
-  '⦌': '\\[',
-  '⦋': '\\]',
+  '⦐': ']',
+  '⦏': '[',
+  '⦎': ']',
+  '⦍': '[',
+  '⦌': ']',
+  '⦋': '[',
   '⦊': '\\triangleright',
   '⦉': '\\triangleleft',
   '⦈': '|\\)',
   '⦇': '\\(|',
-  '⦆': '|\\)',
-  '⦅': '\\(\\(',
+  '⦆': '))',
+  '⦅': '((',
   '⦄': '|\\}',
   '⦃': '\\{|',
   '⦀': '\\||',
-- 
2.43.0


From f44b07ab6f6d0521cceba56bb66b614d88d7b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 24/35] fix: use commands that exist for
 greater-than-or-similar and rho

---
 src/mathml_to_latex/syntax.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 5b63e96..d213a2b 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1806,12 +1806,12 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2278;': '\\not\\overset{>}{<}',
     '&#x2277;': '\\overset{>}{<}',
     '&#x2276;': '\\overset{<}{>}',
-    '&#x2275;': '\\not\\geg',
+    '&#x2275;': '\\not\\gtrsim',
     '&#x2274;': '\\not\\leq',
-    '&#x2273;': '\\geg',
+    '&#x2273;': '\\gtrsim',
     '&#x2272;': '\\leq',
     '&#x226C;': '',
-    '&#x2267;': '\\geg',
+    '&#x2267;': '\\geqq',
     '&#x2266;&#x338;': '\\not\\leq',
     '&#x2266;': '\\leq',
     '&#x2263;': '\\overset{=}{=} ',
@@ -2094,7 +2094,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '%CE%BF': '\\omicron',
     '%CF%80': '\\pi',
     '%CE%A0': '\\Pi',
-    '%CF%81': '\\pho',
+    '%CF%81': '\\rho',
     '%CF%83': '\\sigma',
     '%CE%A3': '\\Sigma',
     '%CF%84': '\\tau',
@@ -2914,12 +2914,12 @@ all_math_operators_by_glyph = {
   '≸': '\\not\\overset{>}{<}',
   '≷': '\\overset{>}{<}',
   '≶': '\\overset{<}{>}',
-  '≵': '\\not\\geg',
+  '≵': '\\not\\gtrsim',
   '≴': '\\not\\leq',
-  '≳': '\\geg',
+  '≳': '\\gtrsim',
   '≲': '\\leq',
   '≬': '',
-  '≧': '\\geg',
+  '≧': '\\geqq',
   '≦̸': '\\not\\leq',
   '≦': '\\leq',
   '≣': '\\overset{=}{=} ',
-- 
2.43.0


From fa07faa36da155adb9d0b42a0db4616791b319fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 25/35] fix: name the right letter for bold Greek capitals and
 the right accent for z with dot and e with inverted breve

---
 src/mathml_to_latex/syntax.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index d213a2b..e3c8b4d 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -73,7 +73,7 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'ë': AccentChar(char='e', accent='¨'),
     'ę': AccentChar(char='e', accent='˙'),
     'ě': AccentChar(char='e', accent='ˇ'),
-    'ȇ': AccentChar(char='i', accent='^'),
+    'ȇ': AccentChar(char='e', accent='^'),
     'ё': AccentChar(char='e', accent='¨'),
     'ē': AccentChar(char='e', accent='-'),
     'í': AccentChar(char='i', accent='´'),
@@ -186,8 +186,8 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'Ĵ': AccentChar(char='J', accent='^'),
     'ź': AccentChar(char='z', accent='´'),
     'Ź': AccentChar(char='Z', accent='´'),
-    'Ż': AccentChar(char='Z', accent='^'),
-    'ż': AccentChar(char='z', accent='^'),
+    'Ż': AccentChar(char='Z', accent='˙'),
+    'ż': AccentChar(char='z', accent='˙'),
     'Ž': AccentChar(char='Z', accent='ˇ'),
     'ž': AccentChar(char='z', accent='ˇ'),
     'ẑ': AccentChar(char='z', accent='ˆ'),
@@ -419,24 +419,24 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚪': SpecialFontChar(letter='\\Gamma', font_cmd='mathtt'),
     '𝚫': SpecialFontChar(letter='\\Delta', font_cmd='mathtt'),
     '𝚬': SpecialFontChar(letter='E', font_cmd='mathtt'),
-    '𝚭': SpecialFontChar(letter='F', font_cmd='mathtt'),
-    '𝚮': SpecialFontChar(letter='G', font_cmd='mathtt'),
+    '𝚭': SpecialFontChar(letter='Z', font_cmd='mathtt'),
+    '𝚮': SpecialFontChar(letter='H', font_cmd='mathtt'),
     '𝚯': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚰': SpecialFontChar(letter='I', font_cmd='mathtt'),
-    '𝚱': SpecialFontChar(letter='J', font_cmd='mathtt'),
+    '𝚱': SpecialFontChar(letter='K', font_cmd='mathtt'),
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
-    '𝚳': SpecialFontChar(letter='L', font_cmd='mathtt'),
-    '𝚴': SpecialFontChar(letter='M', font_cmd='mathtt'),
-    '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
+    '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
+    '𝚵': SpecialFontChar(letter='\\Xi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
-    '𝚸': SpecialFontChar(letter='Q', font_cmd='mathtt'),
-    '𝚹': SpecialFontChar(letter='R', font_cmd='mathtt'),
+    '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
+    '𝚹': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚺': SpecialFontChar(letter='S', font_cmd='mathtt'),
     '𝚻': SpecialFontChar(letter='T', font_cmd='mathtt'),
     '𝚼': SpecialFontChar(letter='U', font_cmd='mathtt'),
     '𝚽': SpecialFontChar(letter='\\Phi', font_cmd='mathtt'),
-    '𝚾': SpecialFontChar(letter='W', font_cmd='mathtt'),
+    '𝚾': SpecialFontChar(letter='X', font_cmd='mathtt'),
     '𝚿': SpecialFontChar(letter='\\Psi', font_cmd='mathtt'),
     '𝛀': SpecialFontChar(letter='\\Omega', font_cmd='mathtt'),
 }
-- 
2.43.0


From 36c01d69c4ee58048569506c76f9acb193c395e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 26/35] fix: escape the special characters within longer
 identifiers and operators too

---
 src/mathml_to_latex/el_to_tex/usecases.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index dc4b7e2..ff1ef0f 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -26,6 +26,11 @@ from .services.wrapper import (
 )
 
 
+def escape_special_chars(value: str) -> str:
+    # As is, "%" comments out the rest of the formula and "&" ends a cell
+    return re.sub(r"[%#$&_{}]", r"\\\g<0>", value)
+
+
 class Math(ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._white_space_normalizer = WhiteSpaceNormalizer()
@@ -120,7 +125,7 @@ class Character:
             self._find_by_character()
             or self._find_by_glyph()
             or self._find_by_number()
-            or HashUTF8ToLtXConverter().convert(self.value)
+            or HashUTF8ToLtXConverter().convert(escape_special_chars(self.value))
         )
 
     def _find_by_character(self) -> str:
@@ -174,7 +179,7 @@ class Operator:
             return latex_command
 
         # Fallback to converting using HashUTF8ToLtXConverter
-        return HashUTF8ToLtXConverter().convert(self._value)
+        return HashUTF8ToLtXConverter().convert(escape_special_chars(self._value))
 
     def _find_by_character(self) -> Optional[str]:
         return all_math_operators_by_char.get(self._value)
@@ -195,11 +200,7 @@ class MN(ToLaTeXConverter):
         normalized_value = self._normalizer.normalize(self._math_element.value).strip()
         converted_value = math_number_by_glyph.get(normalized_value, "")
 
-        return converted_value or self._escape(normalized_value)
-
-    def _escape(self, value: str) -> str:
-        # As is, "%" comments out the rest of the formula and "&" ends a cell
-        return re.sub(r"[%#$&_{}]", r"\\\g<0>", value)
+        return converted_value or escape_special_chars(normalized_value)
 
 
 ROW_NAMES = ("mrow", "mpadded", "mstyle")
-- 
2.43.0


From 8f1e679e5b02bfec0ad7d348cf9cde08d606c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 27/35] fix: an attribute of a table named innerTable is not
 the mark of an inner table

---
 src/mathml_to_latex/el_to_tex/usecases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index ff1ef0f..4a7151c 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -420,7 +420,8 @@ class MTable(ToLaTeXConverter):
             self._add_flag_recursive_if_name(mathml_element.children, name, flag)
 
     def _has_flag(self, flag: str) -> bool:
-        return bool(self._math_element.attributes.get(flag))
+        # An attribute of the document named as the flag is not the flag
+        return self._math_element.attributes.get(flag) == flag
 
 
 class MTr(ToLaTeXConverter):
-- 
2.43.0


From 19f3846d6b603f5108717c5198bad270e40af962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 28/35] fix: keep mml: in text after which a > stands, in
 attribute values, CDATA and comments

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index daa9676..e3be49a 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -31,8 +31,18 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"(?<=[<\s/])mml:(?=[^<>]*>)")
-        return ms_word_prefix_pattern.sub("", xml)
+        markup_pattern = re.compile(
+            r"""<!--.*?-->|<!\[CDATA\[.*?]]>|</?[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
+        )
+        return markup_pattern.sub(self._remove_prefixes_of_tag, xml)
+
+    def _remove_prefixes_of_tag(self, markup: re.Match) -> str:
+        if markup.group().startswith("<!"):
+            return markup.group()
+
+        # Quoted values are content too: they are kept as group 1
+        prefix_pattern = re.compile(r"""("[^"]*"|'[^']*')|(?<=[<\s/])mml:""")
+        return prefix_pattern.sub(lambda prefix: prefix.group(1) or "", markup.group())
 
     def _is_inside_math(self, element: Element) -> bool:
         parent = element.parentNode
-- 
2.43.0


From 7d769c6a07d507c6a99d663703d88d9972b1ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 29/35] fix: leave comments and CDATA alone when attributes are
 repaired

---
 .../xml_to_mathml/services/error_handler.py     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 862dba8..aeedee0 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -3,8 +3,11 @@ import re
 
 
 class ErrorHandler:
-    # A start tag; a quoted attribute value may hold any character
-    _start_tag = re.compile(r"""<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>""")
+    # A comment, a CDATA section (both are kept as they are) or a start tag; a
+    # quoted attribute value may hold any character
+    _markup = re.compile(
+        r"""<!--.*?-->|<!\[CDATA\[.*?]]>|<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
+    )
 
     # An attribute of a start tag: its quoted value is group 1, if it has one
     _attribute = re.compile(
@@ -22,9 +25,13 @@ class ErrorHandler:
         Removes, from the start tags only, the attributes without a quoted value
         (attr, attr= or attr=value).
         """
-        return self._start_tag.sub(
-            lambda tag: self._attribute.sub(self._keep_if_quoted, tag.group()), xml
-        )
+        return self._markup.sub(self._fix_tag, xml)
+
+    def _fix_tag(self, markup: re.Match) -> str:
+        if markup.group().startswith("<!"):
+            return markup.group()
+
+        return self._attribute.sub(self._keep_if_quoted, markup.group())
 
     def _keep_if_quoted(self, attribute: re.Match) -> str:
         return attribute.group() if attribute.group(1) else ""
-- 
2.43.0


From 719de4fe9f08fa63556eb683c1bfd17c9f311bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 30/35] fix: remove an unquoted attribute value with a slash in
 it as a whole

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index aeedee0..7cd1048 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -11,7 +11,7 @@ class ErrorHandler:
 
     # An attribute of a start tag: its quoted value is group 1, if it has one
     _attribute = re.compile(
-        r"""\s+[^\s"'<>/=]+(\s*=\s*(?:"[^"]*"|'[^']*'))?(?:\s*=[^\s"'<>/]*)?"""
+        r"""\s+[^\s"'<>/=]+(\s*=\s*(?:"[^"]*"|'[^']*'))?(?:\s*=(?:[^\s"'<>/]|/(?!>))*)?"""
     )
 
     def fix_error(self, xml: str, error: Exception) -> str:
-- 
2.43.0


From 2c633e9b72107a52347b312ccaa79b726b87c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 31/35] fix: render the maps-to arrow as \mapsto

---
 src/mathml_to_latex/syntax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index e3c8b4d..aeef9d0 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1386,7 +1386,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x21A9;': '\\hookleftarrow',
     '&#x21A8;': '\\underline{\\updownarrow}',
     '&#x21A7;': '\\downarrow',
-    '&#x21A6;': '\\rightarrowtail',
+    '&#x21A6;': '\\mapsto',
     '&#x21A5;': '\\uparrow',
     '&#x21A4;': '\\leftarrowtail',
     '&#x21A3;': '\\rightarrowtail',
@@ -2491,7 +2491,7 @@ all_math_operators_by_glyph = {
   '↩': '\\hookleftarrow',
   '↨': '\\underline{\\updownarrow}',
   '↧': '\\downarrow',
-  '↦': '\\rightarrowtail',
+  '↦': '\\mapsto',
   '↥': '\\uparrow',
   '↤': '\\leftarrowtail',
   '↣': '\\rightarrowtail',
-- 
2.43.0


From 2085d313ef41eb886c96a6ce2af81ba0079cc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 32/35] fix: repair attributes in linear time, also with
 unclosed comments and long white space

---
 src/mathml_to_latex/xml_to_mathml/adapter.py                | 2 +-
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index e3be49a..26480a5 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -32,7 +32,7 @@ class XmlToMathMLAdapter:
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         markup_pattern = re.compile(
-            r"""<!--.*?-->|<!\[CDATA\[.*?]]>|</?[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
+            r"""<!--(?:.*?-->|.*)|<!\[CDATA\[(?:.*?]]>|.*)|</?[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
         )
         return markup_pattern.sub(self._remove_prefixes_of_tag, xml)
 
diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 7cd1048..3ad6be0 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -6,12 +6,12 @@ class ErrorHandler:
     # A comment, a CDATA section (both are kept as they are) or a start tag; a
     # quoted attribute value may hold any character
     _markup = re.compile(
-        r"""<!--.*?-->|<!\[CDATA\[.*?]]>|<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
+        r"""<!--(?:.*?-->|.*)|<!\[CDATA\[(?:.*?]]>|.*)|<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
     )
 
     # An attribute of a start tag: its quoted value is group 1, if it has one
     _attribute = re.compile(
-        r"""\s+[^\s"'<>/=]+(\s*=\s*(?:"[^"]*"|'[^']*'))?(?:\s*=(?:[^\s"'<>/]|/(?!>))*)?"""
+        r"""(?<!\s)\s+[^\s"'<>/=]+(\s*=\s*(?:"[^"]*"|'[^']*'))?(?:\s*=(?:[^\s"'<>/]|/(?!>))*)?"""
     )
 
     def fix_error(self, xml: str, error: Exception) -> str:
-- 
2.43.0


From 0eecf1c2bd7e3396ec009c63c9c03591c126b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 33/35] fix: leave processing instructions alone when tags are
 repaired

---
 src/mathml_to_latex/xml_to_mathml/adapter.py              | 4 ++--
 .../xml_to_mathml/services/error_handler.py               | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 26480a5..b4d1d9d 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -32,12 +32,12 @@ class XmlToMathMLAdapter:
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         markup_pattern = re.compile(
-            r"""<!--(?:.*?-->|.*)|<!\[CDATA\[(?:.*?]]>|.*)|</?[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
+            r"""<!--(?:.*?-->|.*)|<!\[CDATA\[(?:.*?]]>|.*)|<\?(?:.*?\?>|.*)|</?[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
         )
         return markup_pattern.sub(self._remove_prefixes_of_tag, xml)
 
     def _remove_prefixes_of_tag(self, markup: re.Match) -> str:
-        if markup.group().startswith("<!"):
+        if markup.group().startswith(("<!", "<?")):
             return markup.group()
 
         # Quoted values are content too: they are kept as group 1
diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 3ad6be0..5e63cb0 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -3,10 +3,10 @@ import re
 
 
 class ErrorHandler:
-    # A comment, a CDATA section (both are kept as they are) or a start tag; a
-    # quoted attribute value may hold any character
+    # A comment, a CDATA section or a processing instruction (all are kept as they
+    # are) or a start tag; a quoted attribute value may hold any character
     _markup = re.compile(
-        r"""<!--(?:.*?-->|.*)|<!\[CDATA\[(?:.*?]]>|.*)|<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
+        r"""<!--(?:.*?-->|.*)|<!\[CDATA\[(?:.*?]]>|.*)|<\?(?:.*?\?>|.*)|<[^\W\d](?:[^<>"']|"[^"]*"|'[^']*')*>"""
     )
 
     # An attribute of a start tag: its quoted value is group 1, if it has one
@@ -28,7 +28,7 @@ class ErrorHandler:
         return self._markup.sub(self._fix_tag, xml)
 
     def _fix_tag(self, markup: re.Match) -> str:
-        if markup.group().startswith("<!"):
+        if markup.group().startswith(("<!", "<?")):
             return markup.group()
 
         return self._attribute.sub(self._keep_if_quoted, markup.group())
-- 
2.43.0


From 20458a8e19e045f8f3883cb5957b6aa1f84225e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 34/35] fix: convert a long text in linear time

---
 src/mathml_to_latex/el_to_tex/usecases.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 4a7151c..d7c2818 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -713,7 +713,7 @@ class MText(ToLaTeXConverter):
                     continue
             merged_chars.append(char)
 
-        latex = ""
+        pieces = [""]
         for char in merged_chars:
             piece = (
                 MI(MIMathMlElement(char.value)).convert()
@@ -721,11 +721,12 @@ class MText(ToLaTeXConverter):
                 else TextCommand(attributes.get("mathvariant")).apply(char.value)
             )
             # A letter right after a command would become part of its name
-            if re.search(r"\\[a-zA-Z]+$", latex) and piece[:1].isalpha():
-                latex += " "
-            latex += piece
+            if re.search(r"\\[a-zA-Z]+$", pieces[-1]) and piece[:1].isalpha():
+                pieces.append(" ")
+            if piece:
+                pieces.append(piece)
 
-        return latex
+        return "".join(pieces)
 
 
 class TagTypes(Enum):
-- 
2.43.0


From 959f35a37dda1bf8165e84eb247dd7ace34ad7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 35/35] fix: reject an entity that only an external DTD may
 declare instead of dropping it

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index b4d1d9d..2a88c1f 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -20,6 +20,7 @@ class XmlToMathMLAdapter:
     def convert(self, xml: str) -> List[MathMLElement]:
         self._xml = self._remove_line_breaks(xml)
         self._xml = self._remove_ms_word_prefixes(self._xml)
+        self._xml = self._declare_standalone(self._xml)
 
         return self._elements_converter.convert(self._mathml_elements)
 
@@ -52,6 +53,23 @@ class XmlToMathMLAdapter:
             parent = parent.parentNode
         return False
 
+    def _declare_standalone(self, xml: str) -> str:
+        # A DTD is not read, and the parser silently drops every entity that one
+        # may declare, unless the document says that it does not need any
+        if "<!DOCTYPE" not in xml:
+            return xml
+
+        declaration = re.match(r"\ufeff?(?:<\?xml\s[^?]*\?>)?", xml).group()
+        standalone = re.sub(
+            r"""standalone\s*=\s*(?:"no"|'no')""", 'standalone="yes"', declaration
+        )
+        if not standalone.endswith("?>"):
+            standalone += '<?xml version="1.0" standalone="yes"?>'
+        elif "standalone" not in standalone:
+            standalone = standalone[:-2] + ' standalone="yes"?>'
+
+        return standalone + xml[len(declaration) :]
+
     @property
     def _mathml_elements(self) -> List[Element]:
         exception = None
-- 
2.43.0

