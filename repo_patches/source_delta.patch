From 071195b18e6b012799866cefed7fd3b8e64d1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 01/32] fix: accept an empty comment line at the end of the
 file

---
 fluent.syntax/fluent/syntax/parser.py | 2 +-
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..eb3fd78 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char != EOL and ps.current_char is not None:
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..e68d30d 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -206,7 +206,7 @@ class FluentParserStream(ParserStream):
             i += 1
 
         # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        if self.peek() in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 109348d3c69ccb5297b5a04c875603155031f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 02/32] fix: join empty comment lines which end in CRLF

---
 fluent.syntax/fluent/syntax/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index e68d30d..e6dcc5e 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -206,7 +206,8 @@ class FluentParserStream(ParserStream):
             i += 1
 
         # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL, EOF):
+        self.peek()
+        if self.current_peek in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 3f61bc6fe36d7ae5c2b9f3a57e8ba3a66b739cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 03/32] fix: do not indent after characters which do not end a
 line in Fluent

---
 fluent.syntax/fluent/syntax/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..82fce60 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -1,10 +1,12 @@
+import re
 from typing import List, Union
 
 from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    # Only LF ends a line in Fluent; str.splitlines() knows many other breaks.
+    return re.sub(r"\n(?=.)", "\n    ", content, flags=re.DOTALL)
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From ea487c0af54837982043ebe151e097da358e4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 04/32] fix: let a Transformer remove a node which is not in a
 list

---
 fluent.syntax/fluent/syntax/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..6f13fad 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -60,7 +60,7 @@ class Transformer(Visitor):
             elif isinstance(propvalue, BaseNode):
                 new_val = self.visit(propvalue)
                 if new_val is None:
-                    delattr(node, propname)
+                    setattr(node, propname, None)
                 else:
                     setattr(node, propname, new_val)
         return node
-- 
2.43.0


From ff3016ab150521d1e155edd933bc48d7360464b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 05/32] fix: replace escapes beyond U+10FFFF instead of raising
 ValueError

---
 fluent.syntax/fluent/syntax/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..33dfbfc 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -217,11 +217,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
-            # REPLACEMENT CHARACTER.
+            # Escape sequences reresenting surrogate code points, or numbers
+            # beyond the last code point, are well-formed but invalid in
+            # Fluent. Replace them with U+FFFD REPLACEMENT CHARACTER.
             return "�"
 
         value = re.sub(
-- 
2.43.0


From a3217d74e2a1f70d206da2eb6768105379c68202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 06/32] fix: nodes of different types are not equal

---
 fluent.syntax/fluent/syntax/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index 33dfbfc..97ff8be 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -75,6 +75,9 @@ class BaseNode:
         taken into account.
         """
 
+        if type(self) is not type(other):
+            return False
+
         self_keys = set(vars(self).keys())
         other_keys = set(vars(other).keys())
 
-- 
2.43.0


From 8a7b2e13ada56e305728c89aee0dfc37e94a7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 07/32] fix: detect cycles through patterns which are a single
 placeable

---
 fluent.runtime/fluent/runtime/resolver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..bec83ed 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -199,7 +199,14 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
+        # This placeable stands for a whole pattern, so it needs the same
+        # protection against cycles as Pattern.
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.active_patterns.remove(self)
         return inner
 
 
-- 
2.43.0


From 22c148f3cd206d91256ca0fe0728da9787e3b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 08/32] fix: count patterns which are a single placeable as
 parts

---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index bec83ed..99d90a7 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -200,12 +200,17 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
 
     def __call__(self, env: ResolverEnvironment) -> Any:
         # This placeable stands for a whole pattern, so it needs the same
-        # protection against cycles as Pattern.
+        # protection against cycles and expansion as Pattern.
         if self in env.active_patterns:
             env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
             return FluentNone()
+        if env.part_count >= Pattern.MAX_PARTS:
+            raise ValueError(
+                "Too many parts in message (> {}), aborting.".format(Pattern.MAX_PARTS)
+            )
         env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.part_count += 1
         env.active_patterns.remove(self)
         return inner
 
-- 
2.43.0


From a802e2f072581d363ceecc8009cd5e4b835a9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 09/32] fix: report values which cannot be formatted instead of
 raising

---
 fluent.runtime/fluent/runtime/resolver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 99d90a7..65be042 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -168,7 +168,11 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
-        return fluentish.format(env.context._babel_locale)
+        try:
+            return fluentish.format(env.context._babel_locale)
+        except Exception as e:
+            env.errors.append(e)
+            return FluentNone().format(env.context._babel_locale)
     if isinstance(fluentish, str):
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
-- 
2.43.0


From a8468e17aef13d3f31f51b96f268916a1ca9cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 10/32] fix: report too deep reference chains instead of
 raising

---
 fluent.runtime/fluent/runtime/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..1b9cb1a 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -106,7 +106,7 @@ class FluentBundle:
         )
         try:
             result = pattern(env)
-        except ValueError as e:
+        except (ValueError, RecursionError) as e:
             errors.append(e)
             result = "{???}"
         return (result, errors)
-- 
2.43.0


From df0f503ee65d7bee446dab85f62382bd81fc89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 11/32] fix: select on infinity and NaN

---
 fluent.runtime/fluent/runtime/resolver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 65be042..ad2d513 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -348,6 +348,10 @@ def is_number(val: Any) -> bool:
     return isinstance(val, (int, float))
 
 
+def is_finite(val: Any) -> bool:
+    return val == val and val not in (float("inf"), float("-inf"))
+
+
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if val1 is None or isinstance(val1, FluentNone):
         return False
@@ -356,7 +360,10 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if (
+            if not is_finite(val1):
+                # The plural rules are only defined for finite numbers.
+                val1_form = "other"
+            elif (
                 isinstance(val1, (FluentInt, FluentFloat))
                 and val1.options.type == "ordinal"
             ):
-- 
2.43.0


From ae2c51fc4537df9fa4b7ca0502b4b2129087dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 12/32] fix: a string selector does not match a number key by
 its plural category

---
 fluent.runtime/fluent/runtime/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index ad2d513..55efaaa 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -372,7 +372,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
     elif is_number(val2):
-        return match(val2, val1, env)
+        return False
 
     return cast(bool, val1 == val2)
 
-- 
2.43.0


From 0b73345627cbf4ea0c8dd7eeb6e5e41da3d42630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 13/32] fix: let Decimal arguments match variant keys

---
 fluent.runtime/fluent/runtime/resolver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 55efaaa..8fa16a2 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,4 +1,5 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
@@ -345,7 +346,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def is_finite(val: Any) -> bool:
@@ -371,6 +372,9 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             else:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
+        if isinstance(val1, Decimal) and isinstance(val2, float):
+            # Compare with the number as written, Decimal("0.1") != 0.1.
+            val1 = float(val1)
     elif is_number(val2):
         return False
 
-- 
2.43.0


From 3edb489fd6bdec17fe53bc44c1f56f6d72c4fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 14/32] fix: let allow_overrides override messages which were
 already looked up

---
 fluent.runtime/fluent/runtime/bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 1b9cb1a..bd1642f 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,6 +69,9 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                # Forget what an earlier lookup compiled for this id.
+                is_term = isinstance(item, FTL.Term)
+                self._compiled.pop("-" + full_id if is_term else full_id, None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From 07099d344624f12886711b2c87e0a32766102280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 15/32] fix: skip malformed locale identifiers

---
 fluent.runtime/fluent/runtime/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index bd1642f..44468ce 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -118,7 +118,7 @@ class FluentBundle:
         for lc in self.locales:
             try:
                 return babel.Locale.parse(lc.replace("-", "_"))
-            except babel.UnknownLocaleError:
+            except (babel.UnknownLocaleError, ValueError):
                 continue
         # TODO - log error
         return babel.Locale.default()
-- 
2.43.0


From f0f9c343f15d0f80afd7f0474d72b4aebe596203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 16/32] fix: keep the fold of datetime arguments

---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From 0f1ed41eb298b3d88cf030970aa93c095c1fd06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 17/32] fix: reconcile explicit fraction digits with the
 default ones

---
 fluent.runtime/fluent/runtime/types.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 11e243f..5cf5c82 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -193,15 +193,16 @@ class FluentNumber(FluentType):
                     self.options.minimumIntegerDigits,
                     pattern.int_prec[1],
                 )
-            if self.options.minimumFractionDigits is not None:
+            minFD = self.options.minimumFractionDigits
+            maxFD = self.options.maximumFractionDigits
+            if minFD is not None:
+                # The default maximum gives way to an explicit minimum
+                pattern.frac_prec = (minFD, max(pattern.frac_prec[1], minFD))
+            if maxFD is not None:
+                # ... and the default minimum to an explicit maximum.
                 pattern.frac_prec = (
-                    self.options.minimumFractionDigits,
-                    pattern.frac_prec[1],
-                )
-            if self.options.maximumFractionDigits is not None:
-                pattern.frac_prec = (
-                    pattern.frac_prec[0],
-                    self.options.maximumFractionDigits,
+                    min(pattern.frac_prec[0], maxFD) if minFD is None else minFD,
+                    maxFD,
                 )
 
         return pattern
-- 
2.43.0


From 9dd14c3f2685747abf36a5d79df7feba8aaf6839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 18/32] fix: honour explicit fraction digits for currencies

---
 fluent.runtime/fluent/runtime/types.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 5cf5c82..327672e 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -7,7 +7,7 @@ import attr
 import pytz
 from babel import Locale
 from babel.dates import format_date, format_time, get_datetime_format, get_timezone
-from babel.numbers import NumberPattern, parse_pattern
+from babel.numbers import NumberPattern, get_currency_precision, parse_pattern
 from typing_extensions import Literal
 
 FORMAT_STYLE_DECIMAL = "decimal"
@@ -135,10 +135,22 @@ class FluentNumber(FluentType):
         elif self.options.style == FORMAT_STYLE_CURRENCY:
             base_pattern = locale.currency_formats["standard"]
             pattern = self._apply_options(base_pattern)
-            return pattern.apply(selfnum, locale, currency=self.options.currency)
+            return pattern.apply(
+                selfnum,
+                locale,
+                currency=self.options.currency,
+                # Explicit fraction digits override those of the currency
+                currency_digits=not self._has_fraction_options(),
+            )
         # never happens
         return "???"
 
+    def _has_fraction_options(self) -> bool:
+        return (
+            self.options.minimumFractionDigits is not None
+            or self.options.maximumFractionDigits is not None
+        )
+
     def _apply_options(self, pattern: NumberPattern) -> NumberPattern:
         # We are essentially trying to copy the
         # https://developer.mozilla.org/en-US/docs/Web/JavaScript/Reference/Global_Objects/NumberFormat
@@ -195,6 +207,12 @@ class FluentNumber(FluentType):
                 )
             minFD = self.options.minimumFractionDigits
             maxFD = self.options.maximumFractionDigits
+            if (
+                self.options.style == FORMAT_STYLE_CURRENCY
+                and self._has_fraction_options()
+            ):
+                digits = get_currency_precision(self.options.currency)
+                pattern.frac_prec = (digits, digits)
             if minFD is not None:
                 # The default maximum gives way to an explicit minimum
                 pattern.frac_prec = (minFD, max(pattern.frac_prec[1], minFD))
-- 
2.43.0


From 3dfac760699d9646f0f45ecf3e21d41f23df652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 19/32] fix: use the ordinal category of ordinal Decimals

Only FluentInt and FluentFloat were looked at, so that
NUMBER($dec, type: "ordinal") selected by the cardinal category.
---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 8fa16a2..5fc7446 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -6,7 +6,7 @@ import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -364,10 +364,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             if not is_finite(val1):
                 # The plural rules are only defined for finite numbers.
                 val1_form = "other"
-            elif (
-                isinstance(val1, (FluentInt, FluentFloat))
-                and val1.options.type == "ordinal"
-            ):
+            elif isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
                 val1_form = env.context._ordinal_form(val1)
             else:
                 val1_form = env.context._plural_form(val1)
-- 
2.43.0


From bc016d511b35d3a740190da18ba86f0027529963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 20/32] fix: minimumSignificantDigits alone does not round

Without maximumSignificantDigits the minimum was the maximum as well, and
NUMBER(123456, minimumSignificantDigits: 3) lost digits: 123,000.
---
 fluent.runtime/fluent/runtime/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 327672e..46aa30b 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -197,7 +197,8 @@ class FluentNumber(FluentType):
             pattern.pattern = "@"
             # We then manually set int_prec, and leave the rest as they are.
             min_digits = minSD if minSD is not None else 1
-            max_digits = maxSD if maxSD is not None else min_digits
+            # 21 is the default of Intl.NumberFormat
+            max_digits = maxSD if maxSD is not None else max(min_digits, 21)
             pattern.int_prec = (min_digits, max_digits)
         else:
             if self.options.minimumIntegerDigits is not None:
-- 
2.43.0


From c4038bee3fed526b702105bb256930e15aed86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 21/32] fix: select on a signaling NaN instead of raising

---
 fluent.runtime/fluent/runtime/resolver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 5fc7446..eb37cf9 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -350,6 +350,9 @@ def is_number(val: Any) -> bool:
 
 
 def is_finite(val: Any) -> bool:
+    if isinstance(val, Decimal):
+        # Comparing a signaling NaN would raise
+        return val.is_finite()
     return val == val and val not in (float("inf"), float("-inf"))
 
 
@@ -369,6 +372,8 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             else:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
+        if isinstance(val1, Decimal) and val1.is_nan():
+            return False
         if isinstance(val1, Decimal) and isinstance(val2, float):
             # Compare with the number as written, Decimal("0.1") != 0.1.
             val1 = float(val1)
-- 
2.43.0


From bc6b539fe52ca11f1c563ffc1d9b3214c40da6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 22/32] fix: select on numbers too big for the plural rules

---
 fluent.runtime/fluent/runtime/resolver.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index eb37cf9..36cee54 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -367,10 +367,15 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             if not is_finite(val1):
                 # The plural rules are only defined for finite numbers.
                 val1_form = "other"
-            elif isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
-                val1_form = env.context._ordinal_form(val1)
             else:
-                val1_form = env.context._plural_form(val1)
+                try:
+                    if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
+                        val1_form = env.context._ordinal_form(val1)
+                    else:
+                        val1_form = env.context._plural_form(val1)
+                except ArithmeticError:
+                    # Too big for the arithmetic of the plural rules.
+                    val1_form = "other"
             return cast(bool, val1_form == val2)
         if isinstance(val1, Decimal) and val1.is_nan():
             return False
-- 
2.43.0


From 9c0740e4451df5027b860163709e7adc192d2da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 23/32] fix: get_message does not return terms

---
 fluent.runtime/fluent/runtime/bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 44468ce..8a69eb1 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -77,6 +77,9 @@ class FluentBundle:
         return message_id in self._messages
 
     def get_message(self, message_id: str) -> Message:
+        if message_id not in self._messages:
+            # Don't find compiled terms by their "-id".
+            raise KeyError(message_id)
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-- 
2.43.0


From 575d37f788cafb756d47414e9159522259aa3b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 24/32] fix: accept annotated tags in the docs build

---
 fluent.docs/fluent/docs/tags.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.docs/fluent/docs/tags.py b/fluent.docs/fluent/docs/tags.py
index a5dd7b1..d952826 100644
--- a/fluent.docs/fluent/docs/tags.py
+++ b/fluent.docs/fluent/docs/tags.py
@@ -4,7 +4,7 @@ from datetime import date
 
 def get_tag_infos(cut_off_date):
     """Get fluent.* tags newer than cut_off_date.
-    TagInfo objects are ordered by committer date, newest first.
+    TagInfo objects are ordered by creation date, newest first.
     """
     taglines = subprocess.run(
         [
@@ -12,8 +12,8 @@ def get_tag_infos(cut_off_date):
             "tag",
             "--list",
             "fluent.*",
-            "--sort=-committerdate",
-            "--format=%(refname:lstrip=2) %(committerdate:short)",
+            "--sort=-creatordate",
+            "--format=%(refname:lstrip=2) %(creatordate:short)",
         ],
         encoding="utf-8",
         stdout=subprocess.PIPE,
-- 
2.43.0


From 9a4973f445e72d02705c4127ecd3308018c057a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 25/32] fix: an identity Transformer keeps None in lists

---
 fluent.syntax/fluent/syntax/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 6f13fad..5f89873 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -53,7 +53,7 @@ class Transformer(Visitor):
                 new_vals: List[Any] = []
                 for child in propvalue:
                     new_val = self.visit(child)
-                    if new_val is not None:
+                    if new_val is not None or child is None:
                         new_vals.append(new_val)
                 # in-place manipulation
                 propvalue[:] = new_vals
-- 
2.43.0


From 86405903e597735d925b1f3b84ec0a32f025f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 26/32] fix: format whatever a custom function returns

---
 fluent.runtime/fluent/runtime/resolver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 36cee54..845268c 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -7,7 +7,7 @@ from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
 from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
-from .utils import reference_to_id, unknown_reference_error_obj
+from .utils import native_to_fluent, reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
     from .bundle import FluentBundle
@@ -168,9 +168,18 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
+    if not isinstance(fluentish, (FluentType, str)):
+        # Custom functions may return any Python value.
+        fluentish = native_to_fluent(fluentish)
+        if not isinstance(fluentish, FluentType):
+            env.errors.append(TypeError(f"Unsupported type: {type(fluentish)}"))
+            fluentish = FluentNone()
     if isinstance(fluentish, FluentType):
         try:
-            return fluentish.format(env.context._babel_locale)
+            text = fluentish.format(env.context._babel_locale)
+            if not isinstance(text, str):
+                raise TypeError(f"Not formatted to text: {type(fluentish)}")
+            return text
         except Exception as e:
             env.errors.append(e)
             return FluentNone().format(env.context._babel_locale)
-- 
2.43.0


From e87b44d6ae88b4ac9c5545cf2e3edfe283a08595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 27/32] fix: agree on one compiled entry between threads

Two threads formatting a message for the first time could each compile it,
and a cycle through it was then noticed a round too late.
---
 fluent.runtime/fluent/runtime/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 8a69eb1..6eae726 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -92,8 +92,8 @@ class FluentBundle:
         except LookupError:
             pass
         entry = self._terms[entry_id] if term else self._messages[entry_id]
-        self._compiled[compiled_id] = self._compiler(entry)
-        return self._compiled[compiled_id]
+        # Threads compiling the same entry at once have to agree on one result.
+        return self._compiled.setdefault(compiled_id, self._compiler(entry))
 
     def format_pattern(
         self, pattern: Pattern, args: Union[Dict[str, Any], None] = None
-- 
2.43.0


From 760bb2d1a0478fe43cd72c458ef1a8b3df8029d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 28/32] fix: read the file as UTF-8 in the pygments command

Fluent files are UTF-8 whatever the locale is, and so the other tools read them.
---
 fluent.pygments/fluent/pygments/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.pygments/fluent/pygments/cli.py b/fluent.pygments/fluent/pygments/cli.py
index 652155b..253c561 100644
--- a/fluent.pygments/fluent/pygments/cli.py
+++ b/fluent.pygments/fluent/pygments/cli.py
@@ -10,7 +10,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument("path")
     args = parser.parse_args()
-    with open(args.path) as fh:
+    with open(args.path, encoding="utf-8") as fh:
         code = fh.read()
     highlight(code, FluentLexer(), Terminal256Formatter(), sys.stdout)
 
-- 
2.43.0


From 32f53daad806eec1f88192082893d0caec2360f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 29/32] fix: Contain the errors of comparing an argument with
 variant keys

An argument of a custom type whose __eq__ raises (or whose comparison has
no truth value) made format_pattern raise. Record the error and use the
default variant.
---
 fluent.runtime/fluent/runtime/resolver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 845268c..0b2c764 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -342,7 +342,14 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
             if variant.default:
                 default = variant
 
-            if match(key, variant.key(env), env):
+            try:
+                matches = match(key, variant.key(env), env)
+            except Exception as e:
+                # Objects passed in may fail to compare; that matches nothing.
+                env.errors.append(e)
+                key = FluentNone()
+                continue
+            if matches:
                 found = variant
                 break
 
@@ -394,7 +401,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     elif is_number(val2):
         return False
 
-    return cast(bool, val1 == val2)
+    return bool(val1 == val2)
 
 
 class Variant(FTL.Variant, BaseResolver):
-- 
2.43.0


From 8fa815c1f7f4151fdd9381fbe19d187bc9f315d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:42 +0000
Subject: [PATCH 30/32] fix: Compile integer literals with more digits than
 int() converts

get_message and references to it raised ValueError for literals of more
than 4300 digits.
---
 fluent.runtime/fluent/runtime/resolver.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 0b2c764..e0c0516 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -6,7 +6,14 @@ import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
+from .types import (
+    FluentDecimal,
+    FluentFloat,
+    FluentInt,
+    FluentNone,
+    FluentNumber,
+    FluentType,
+)
 from .utils import native_to_fluent, reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -237,16 +244,22 @@ class StringLiteral(FTL.StringLiteral, Literal):
 
 
 class NumberLiteral(FTL.NumberLiteral, BaseResolver):
-    value: Union[FluentFloat, FluentInt]  # type: ignore
+    value: Union[FluentFloat, FluentInt, FluentDecimal]  # type: ignore
 
     def __init__(self, value: str, **kwargs: Any):
         super().__init__(value, **kwargs)
         if "." in cast(str, self.value):
             self.value = FluentFloat(self.value)
         else:
-            self.value = FluentInt(self.value)
-
-    def __call__(self, env: ResolverEnvironment) -> Union[FluentFloat, FluentInt]:
+            try:
+                self.value = FluentInt(self.value)
+            except ValueError:
+                # Python limits the digits it converts to an int.
+                self.value = FluentDecimal(self.value)
+
+    def __call__(
+        self, env: ResolverEnvironment
+    ) -> Union[FluentFloat, FluentInt, FluentDecimal]:
         return self.value
 
 
-- 
2.43.0


From 26ce0dcab7e9ee56c20c6bda2f29266c891e35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 31/32] fix: Refuse to pad numbers to an unbounded count of
 digits

A translation like { NUMBER($n, minimumIntegerDigits: 99999999) } kept
format_pattern busy for minutes (quadratic in the digits), and one like
{ NUMBER(0, minimumFractionDigits: 999999999) } took gigabytes.
---
 fluent.runtime/fluent/runtime/types.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 46aa30b..cab5530 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -35,6 +35,17 @@ NUMBER_TYPE_OPTIONS = {
     NUMBER_TYPE_CARDINAL,
 }
 
+# Prevent padding to too many digits, for memory and CPU DOS protection
+MAX_DIGITS = 2500
+
+_DIGITS_OPTIONS = [
+    "minimumIntegerDigits",
+    "minimumFractionDigits",
+    "maximumFractionDigits",
+    "minimumSignificantDigits",
+    "maximumSignificantDigits",
+]
+
 DATE_STYLE_OPTIONS = {
     "full",
     "long",
@@ -190,6 +201,10 @@ class FluentNumber(FluentType):
                         CURRENCY_DISPLAY_NAME, CURRENCY_DISPLAY_SYMBOL
                     )
                 )
+        for option in _DIGITS_OPTIONS:
+            digits = getattr(self.options, option)
+            if digits is not None and digits > MAX_DIGITS:
+                raise ValueError(f"{option} value is out of range")
         minSD = self.options.minimumSignificantDigits
         maxSD = self.options.maximumSignificantDigits
         if minSD is not None or maxSD is not None:
-- 
2.43.0


From 7ea4378ac9b214ea15cf8c58130987bb2698b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 32/32] fix: Treat natives that cannot be converted as
 unsupported

A datetime without a date (pandas.NaT is one), or an int or float subclass
that refuses to be converted, made format_pattern raise.
---
 fluent.runtime/fluent/runtime/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/utils.py b/fluent.runtime/fluent/runtime/utils.py
index b9fa7bd..6195150 100644
--- a/fluent.runtime/fluent/runtime/utils.py
+++ b/fluent.runtime/fluent/runtime/utils.py
@@ -15,6 +15,15 @@ def native_to_fluent(val: Any) -> Any:
     """
     Convert a python type to a Fluent Type.
     """
+    try:
+        return _native_to_fluent(val)
+    except Exception:
+        # Some subclasses are not what they claim to be, like pandas.NaT, which
+        # is a datetime without a date. They are not supported.
+        return val
+
+
+def _native_to_fluent(val: Any) -> Any:
     if isinstance(val, int):
         return FluentInt(val)
     if isinstance(val, float):
-- 
2.43.0

