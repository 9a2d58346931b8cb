From f37ed7a6a6025383e66f89c7694a4ea3fa5db9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 01/20] fix: accept an empty comment line at the end of input

A line consisting of only #, ## or ### is a valid comment line whether it is
ended by a line break or by the end of the input.
---
 fluent.syntax/fluent/syntax/parser.py | 4 ++--
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..096bf6d 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, List, Set, TypeVar, Union, cast
 
 from . import ast
 from .errors import ParseError
-from .stream import EOL, FluentParserStream
+from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char not in (EOL, EOF):
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..e68d30d 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -206,7 +206,7 @@ class FluentParserStream(ParserStream):
             i += 1
 
         # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        if self.peek() in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 071d663624adf9a19dc688ca2eec4d2cc10c6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 02/20] fix: continue comments over empty comment lines ended
 by CRLF

peek() returns the raw CR of a CRLF line ending, so a CRLF-terminated empty
comment line split the comment in two.
---
 fluent.syntax/fluent/syntax/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index e68d30d..e6dcc5e 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -206,7 +206,8 @@ class FluentParserStream(ParserStream):
             i += 1
 
         # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL, EOF):
+        self.peek()
+        if self.current_peek in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 127044f4df8113740d6c79a1a6ac26d6e6aaf8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 03/20] fix: indent only real line breaks when serializing
 patterns

str.splitlines() also splits on CR, VT, FF, FS, GS, RS, NEL, LS and PS, so the
serializer inserted spaces into text and string literals holding them.
---
 fluent.syntax/fluent/syntax/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..de588d5 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -4,7 +4,7 @@ from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    return content.replace("\n", "\n    ")
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From e3ac2c3e16ae69be77c413ce84ab3173e8a808d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 04/20] fix: do not report nodes of different types as equal

---
 fluent.syntax/fluent/syntax/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..d7a8db2 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -75,6 +75,9 @@ class BaseNode:
         taken into account.
         """
 
+        if type(self) is not type(other):
+            return False
+
         self_keys = set(vars(self).keys())
         other_keys = set(vars(other).keys())
 
-- 
2.43.0


From 30a53f8ff0807396877e1d7059a267be0572a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 05/20] fix: decode escapes beyond U+10FFFF to U+FFFD

---
 fluent.syntax/fluent/syntax/ast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index d7a8db2..ef7fdf3 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -220,10 +220,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
+            # Escape sequences reresenting surrogate code points, or no code
+            # point at all, are well-formed but invalid in Fluent. Replace
+            # them with U+FFFD
             # REPLACEMENT CHARACTER.
             return "�"
 
-- 
2.43.0


From 23e7f1b7386ce8956815b5d634b76928fe01d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 06/20] fix: detect reference cycles through patterns of a
 single placeable

---
 fluent.runtime/fluent/runtime/resolver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..dae3cbf 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -199,7 +199,12 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.active_patterns.remove(self)
         return inner
 
 
-- 
2.43.0


From afc84c615829e5e2ac70e1fc15a717b09922c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 07/20] fix: report errors in formatting a value instead of
 raising them

---
 fluent.runtime/fluent/runtime/resolver.py | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index dae3cbf..73c2041 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -168,7 +168,11 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
-        return fluentish.format(env.context._babel_locale)
+        try:
+            return fluentish.format(env.context._babel_locale)
+        except Exception as e:
+            env.errors.append(e)
+            return "???"
     if isinstance(fluentish, str):
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
@@ -345,13 +349,18 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if (
-                isinstance(val1, (FluentInt, FluentFloat))
-                and val1.options.type == "ordinal"
-            ):
-                val1_form = env.context._ordinal_form(val1)
-            else:
-                val1_form = env.context._plural_form(val1)
+            try:
+                if (
+                    isinstance(val1, (FluentInt, FluentFloat))
+                    and val1.options.type == "ordinal"
+                ):
+                    val1_form = env.context._ordinal_form(val1)
+                else:
+                    val1_form = env.context._plural_form(val1)
+            except (ArithmeticError, ValueError) as e:
+                # Infinity and NaN have no plural category
+                env.errors.append(e)
+                return False
             return cast(bool, val1_form == val2)
     elif is_number(val2):
         return match(val2, val1, env)
-- 
2.43.0


From 99116f0ded7c76eaca2caea8c1eba7c25360121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 08/20] fix: let Decimal selectors match numeric and plural
 variants

---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 73c2041..98a8695 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,11 +1,12 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -338,7 +339,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
@@ -351,7 +352,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             # Could be plural rule match
             try:
                 if (
-                    isinstance(val1, (FluentInt, FluentFloat))
+                    isinstance(val1, FluentNumber)
                     and val1.options.type == "ordinal"
                 ):
                     val1_form = env.context._ordinal_form(val1)
-- 
2.43.0


From 2827da307065c0555e312400f5f82cca74d27f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 09/20] fix: do not match string selectors against the plural
 category of numeric keys

---
 fluent.runtime/fluent/runtime/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 98a8695..2cfacaa 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -364,7 +364,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
                 return False
             return cast(bool, val1_form == val2)
     elif is_number(val2):
-        return match(val2, val1, env)
+        return False
 
     return cast(bool, val1 == val2)
 
-- 
2.43.0


From adf960a5db1102659f64fdef43434c5b935c0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 10/20] fix: use an overriding message even after the
 overridden one was looked up

---
 fluent.runtime/fluent/runtime/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..364914d 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,6 +69,8 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                compiled_id = "-" + full_id if map_ is self._terms else full_id
+                self._compiled.pop(compiled_id, None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From d5c32f7d0f88a2a4750b54230d8304c515fa422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 11/20] fix: do not return terms from get_message

---
 fluent.runtime/fluent/runtime/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 364914d..cb66ef5 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -76,6 +76,8 @@ class FluentBundle:
         return message_id in self._messages
 
     def get_message(self, message_id: str) -> Message:
+        if not self.has_message(message_id):
+            raise KeyError(message_id)
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-- 
2.43.0


From fc3833615ce00a8c0a414430b91541465a8a6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 12/20] fix: keep the fold of datetime arguments

---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From c5bbdd36711cdb2447208821ee7a8f01a04128d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 13/20] fix: do not round off fraction digits required by
 minimumFractionDigits

---
 fluent.runtime/fluent/runtime/types.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 11e243f..36b0adb 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -193,16 +193,13 @@ class FluentNumber(FluentType):
                     self.options.minimumIntegerDigits,
                     pattern.int_prec[1],
                 )
-            if self.options.minimumFractionDigits is not None:
-                pattern.frac_prec = (
-                    self.options.minimumFractionDigits,
-                    pattern.frac_prec[1],
-                )
-            if self.options.maximumFractionDigits is not None:
-                pattern.frac_prec = (
-                    pattern.frac_prec[0],
-                    self.options.maximumFractionDigits,
-                )
+            minFD = self.options.minimumFractionDigits
+            maxFD = self.options.maximumFractionDigits
+            if minFD is not None:
+                # The default maximum must not cut off required digits.
+                pattern.frac_prec = (minFD, max(minFD, pattern.frac_prec[1]))
+            if maxFD is not None:
+                pattern.frac_prec = (min(maxFD, pattern.frac_prec[0]), maxFD)
 
         return pattern
 
-- 
2.43.0


From f172e0704d55d67c7220b517c0529b250d19fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 14/20] fix: do not round to minimumSignificantDigits

---
 fluent.runtime/fluent/runtime/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 36b0adb..a7d0207 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -185,7 +185,7 @@ class FluentNumber(FluentType):
             pattern.pattern = "@"
             # We then manually set int_prec, and leave the rest as they are.
             min_digits = minSD if minSD is not None else 1
-            max_digits = maxSD if maxSD is not None else min_digits
+            max_digits = maxSD if maxSD is not None else max(min_digits, 21)
             pattern.int_prec = (min_digits, max_digits)
         else:
             if self.options.minimumIntegerDigits is not None:
-- 
2.43.0


From 10b850537453df38c7a3a20843a658e5c12ad9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 15/20] fix: apply the fraction digit options to currencies

---
 fluent.runtime/fluent/runtime/types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index a7d0207..28605e0 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -7,7 +7,7 @@ import attr
 import pytz
 from babel import Locale
 from babel.dates import format_date, format_time, get_datetime_format, get_timezone
-from babel.numbers import NumberPattern, parse_pattern
+from babel.numbers import NumberPattern, get_currency_precision, parse_pattern
 from typing_extensions import Literal
 
 FORMAT_STYLE_DECIMAL = "decimal"
@@ -135,7 +135,13 @@ class FluentNumber(FluentType):
         elif self.options.style == FORMAT_STYLE_CURRENCY:
             base_pattern = locale.currency_formats["standard"]
             pattern = self._apply_options(base_pattern)
-            return pattern.apply(selfnum, locale, currency=self.options.currency)
+            # _apply_options has set the precision of the currency.
+            return pattern.apply(
+                selfnum,
+                locale,
+                currency=self.options.currency,
+                currency_digits=False,
+            )
         # never happens
         return "???"
 
@@ -154,6 +160,7 @@ class FluentNumber(FluentType):
         if not self.options.useGrouping:
             pattern.grouping = _UNGROUPED_PATTERN.grouping
         if self.options.style == FORMAT_STYLE_CURRENCY:
+            pattern.frac_prec = (get_currency_precision(self.options.currency),) * 2
             if self.options.currencyDisplay == CURRENCY_DISPLAY_CODE:
                 # Not sure of the correct algorithm here, but this seems to
                 # work:
-- 
2.43.0


From a1836a216f4066d0537c0d7019274a5caf156c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 16/20] fix: match Decimal selectors to number keys with a
 fraction

---
 fluent.runtime/fluent/runtime/resolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 2cfacaa..247cdac 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -366,6 +366,10 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     elif is_number(val2):
         return False
 
+    if isinstance(val1, Decimal) and isinstance(val2, float):
+        # Few floats are exactly the decimal they are written as.
+        return float(val1) == val2
+
     return cast(bool, val1 == val2)
 
 
-- 
2.43.0


From c2b98ce2e5e2808780f520fb0d5e438542d77650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 17/20] fix: do not raise when selecting on a signaling NaN

---
 fluent.runtime/fluent/runtime/resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 247cdac..75a619a 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -366,6 +366,9 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     elif is_number(val2):
         return False
 
+    if isinstance(val1, Decimal) and val1.is_snan():
+        # Comparing it raises.
+        return False
     if isinstance(val1, Decimal) and isinstance(val2, float):
         # Few floats are exactly the decimal they are written as.
         return float(val1) == val2
-- 
2.43.0


From ef2651f7b70713c62a8c35ba61ae7c70b37f74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 18/20] fix: keep None items of lists when transforming

---
 fluent.syntax/fluent/syntax/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..dfdcee9 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -53,7 +53,8 @@ class Transformer(Visitor):
                 new_vals: List[Any] = []
                 for child in propvalue:
                     new_val = self.visit(child)
-                    if new_val is not None:
+                    # Annotations may have None among their arguments.
+                    if new_val is not None or child is None:
                         new_vals.append(new_val)
                 # in-place manipulation
                 propvalue[:] = new_vals
-- 
2.43.0


From 2e7040fff1f95bdbdae2aec47db0b7141f39baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 19/20] fix: let a Transformer remove a node that is not in a
 list

---
 fluent.syntax/fluent/syntax/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index dfdcee9..d295a23 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -48,7 +48,8 @@ class Transformer(Visitor):
         return visit(node)
 
     def generic_visit(self, node: Node) -> Node:  # type: ignore
-        for propname, propvalue in vars(node).items():
+        # Handlers removing nodes change the fields on the way.
+        for propname, propvalue in list(vars(node).items()):
             if isinstance(propvalue, list):
                 new_vals: List[Any] = []
                 for child in propvalue:
-- 
2.43.0


From 3e57243d274b49c17d9a1f1c8f485f033aa81e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 20/20] fix: a number literal of more than 4300 digits no
 longer makes get_message raise

---
 fluent.runtime/fluent/runtime/resolver.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 75a619a..3f055ad 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -6,7 +6,14 @@ import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
+from .types import (
+    FluentDecimal,
+    FluentFloat,
+    FluentInt,
+    FluentNone,
+    FluentNumber,
+    FluentType,
+)
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -221,16 +228,20 @@ class StringLiteral(FTL.StringLiteral, Literal):
 
 
 class NumberLiteral(FTL.NumberLiteral, BaseResolver):
-    value: Union[FluentFloat, FluentInt]  # type: ignore
+    value: Union[FluentFloat, FluentInt, FluentDecimal]  # type: ignore
 
     def __init__(self, value: str, **kwargs: Any):
         super().__init__(value, **kwargs)
         if "." in cast(str, self.value):
             self.value = FluentFloat(self.value)
         else:
-            self.value = FluentInt(self.value)
+            try:
+                self.value = FluentInt(self.value)
+            except ValueError:
+                # Python limits the digits it turns into an int.
+                self.value = FluentDecimal(self.value)
 
-    def __call__(self, env: ResolverEnvironment) -> Union[FluentFloat, FluentInt]:
+    def __call__(self, env: ResolverEnvironment) -> FluentNumber:
         return self.value
 
 
-- 
2.43.0

