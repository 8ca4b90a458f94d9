From 7c39480c9d81a11b2e263b3ef1347342a640297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 001/100] fix: CaselessLiteral with punctuation could never
 match (escaped twice)

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 11ea5fa..53890ea 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -262,7 +262,7 @@ class CaselessLiteral(Literal):
             Log.error("Literal must be at least one character")
         Token.__init__(self)
         self.set_config(
-            match=match, regex=regex_compile(regex_caseless(re.escape(match))),
+            match=match, regex=regex_compile(regex_caseless(match)),
         )
         self.parser_name = match
 
-- 
2.43.0


From 34f0a2c3719867103f80e37531dd6b8259e9be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 002/100] fix: CharsNotIn min/max length produced an invalid
 regex quantifier

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 53890ea..9435372 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -514,11 +514,11 @@ class CharsNotIn(Token):
             elif min == 1:
                 suffix = "+"
             else:
-                suffix = "{" + str(min) + ":}"
+                suffix = "{" + str(min) + ",}"
         elif min == 1 and max == 1:
             suffix = ""
         else:
-            suffix = "{" + str(min) + ":" + str(max) + "}"
+            suffix = "{" + str(min) + "," + str(max) + "}"
 
         self.set_config(
             regex=regex_compile(regex + suffix),
-- 
2.43.0


From 2aa2ba3c033dfaa40a647194eac97051af5c6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:38 +0000
Subject: [PATCH 003/100] fix: White raised IndexError at end of text, and
 split its token into characters

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 9435372..c2078ac 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -600,7 +600,7 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if start >= len(string) or string[start] not in self.parser_config.white_chars:
             raise ParseException(self, start, string)
         end = start
         end += 1
@@ -613,7 +613,7 @@ class White(Token):
             raise ParseException(self, end, string)
 
         return ParseResults(
-            self, start, end, string[start:end], [ParseException(self, end, string)]
+            self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
     def reverse(self):
-- 
2.43.0


From b8ddcfd6c4ce441405a7fce2ea1dbd4b3c0f0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 004/100] fix: StringStart returned a plain list instead of
 ParseResults

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index c2078ac..d661fd1 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -697,7 +697,7 @@ class StringStart(Token):
             # see if entire string up to here is just whitespace and ignoreables
             # if loc != self.whitespace.skip(string, 0):
             raise ParseException(self, loc, string)
-        return []
+        return ParseResults(self, loc, loc, [], [])
 
     def min_length(self):
         return 0
-- 
2.43.0


From a6b48f1c6d884c9a8e6b64e863f550441788228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 005/100] fix: CloseMatch end position ignored where the match
 started

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index d661fd1..2aaacd3 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -327,7 +327,7 @@ class CloseMatch(Token):
                     if len(mismatches) > max_mismatches:
                         break
             else:
-                end = match_stringloc + 1
+                end = maxloc
                 results = ParseResults(self, start, end, [string[start:end]], [])
                 results["original"] = match
                 results["mismatches"] = mismatches
-- 
2.43.0


From 5a39abe47d5959b370af3f238014b384fd5879ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 006/100] fix: repetition of an expression that matches nothing
 never ended

---
 mo_parsing/enhancement.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47cd4b3..0de7183 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -249,13 +249,14 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                if result.end == result.start:
+                    break  # NO PROGRESS, MATCHING AGAIN WILL NOT HELP
                 end = result.end
-                if result.end - result.start:
-                    acc.append(result)
-                    failures.extend(result.failures)
-                    count += 1
-                    if count >= max:
-                        break
+                acc.append(result)
+                failures.extend(result.failures)
+                count += 1
+                if count >= max:
+                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From c8d5b7098f0e2685c20f0b874ff7fc79a54d5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 007/100] fix: Word with separate body characters ignored max=1

---
 mo_parsing/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 2aaacd3..cdc6a04 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -373,6 +373,8 @@ class Word(Token):
             if init_chars.__class__.__name__ == "Regex":
                 init_chars = init_chars.expecting().keys()
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
+        elif max == 1:
+            prec, regexp = Char(init_chars, exclude=exclude).__regex__()
         elif max is None or max == MAX_INT:
             with whitespaces.NO_WHITESPACE:
                 prec, regexp = (
-- 
2.43.0


From a9dfdb6766c2d8b8be0f6c704e31117fc6033d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:10 +0000
Subject: [PATCH 008/100] fix: Whitespace.add_ignore() kept only the first of
 the given expressions

---
 mo_parsing/whitespaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index f3cf1bf..7815d90 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -123,7 +123,7 @@ class Whitespace(ParserElement):
             self.content = None
             self.expr = None if isinstance(Empty, Expecting) else Empty()
             self.regex = re.compile(self.__regex__()[1], re.DOTALL)
-            return self
+        return self
 
     def backup(self):
         return Backup(self)
-- 
2.43.0


From 8aba048d455b29dd2e5d8f37f91ea9994988f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:22 +0000
Subject: [PATCH 009/100] fix: SkipTo succeeded when it met its fail_on
 expression

---
 mo_parsing/enhancement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 0de7183..ded482f 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -462,12 +462,13 @@ class SkipTo(ParseEnhancement):
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
             if fail:
-                # break if fail_on expression matches
+                # fail if fail_on expression matches
                 try:
                     fail._parse(string, loc)
-                    break
-                except:
+                except ParseException:
                     pass
+                else:
+                    raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
-- 
2.43.0


From 6cacf0fe0421d97d986fa4b80b80d357cde2afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:35 +0000
Subject: [PATCH 010/100] fix: whitespace was not skipped after PrecededBy
 inside And

---
 mo_parsing/expressions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e363941..9bf7fb4 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -268,18 +268,20 @@ class And(ParseExpression):
         acc = []
         failures = []
         for i, expr in enumerate(self.exprs):
-            if end > index:
-                if isinstance(expr, LookBehind):
-                    index = end
-                else:
+            if isinstance(expr, LookBehind):
+                # ZERO LENGTH, AND LOOKING AT WHAT WAS JUST MATCHED: WHITESPACE IS STILL TO BE SKIPPED
+                loc = end
+            else:
+                if end > index:
                     index = self.parser_config.whitespace.skip(string, end)
+                loc = index
             if isinstance(expr, And.SyntaxErrorGuard):
                 encountered_syntax_error = True
                 continue
             try:
-                result = expr._parse(string, index, do_actions)
+                result = expr._parse(string, loc, do_actions)
                 failures.extend(result.failures)
-                if not result and index == result.end and isinstance(result.type, Many) and result.type.parser_config.min_match == 0:
+                if not result and loc == result.end and isinstance(result.type, Many) and result.type.parser_config.min_match == 0:
                     continue
                 acc.append(result)
                 end = result.end
-- 
2.43.0


From 063098d2eb72cbe25d6819850100ddbc892646e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 011/100] fix: SkipTo never ended when its ignore expression
 matched nothing

---
 mo_parsing/enhancement.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ded482f..8103bfd 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -474,8 +474,10 @@ class SkipTo(ParseEnhancement):
                 # advance past ignore expressions
                 while 1:
                     try:
-                        loc = ignore._parse(string, loc).end
-                        skip_end = loc
+                        ignored_end = ignore._parse(string, loc).end
+                        if ignored_end <= loc:
+                            break  # NO PROGRESS
+                        loc = skip_end = ignored_end
                         loc = before_end = self.parser_config.whitespace.skip(string, loc)
                     except ParseException:
                         break
-- 
2.43.0


From 69227cc70e87da303e6c0cc1be33768666a24acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 012/100] fix: NotAny accepted everything when its expression
 has no regex form

---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 8103bfd..690c9b0 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -159,10 +159,10 @@ class NotAny(LookAhead):
             raise ParseException(self, start, string) from None
         else:
             try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string) from None
-            except:
+                self.expr._parse(string, start, do_actions)
+            except ParseException:
                 return ParseResults(self, start, start, [], [])
+            raise ParseException(self, start, string) from None
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
-- 
2.43.0


From b6931273a6ca733af813add9d3bdc08e1c1b1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 013/100] fix: MatchFirst inside Or was merged into the Or, so
 the longest was chosen not the first

---
 mo_parsing/expressions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 9bf7fb4..ad79de8 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -100,11 +100,6 @@ class ParseExpression(ParserElement):
         acc = []
         same = True
         clazz = self.__class__
-        if clazz == Or:
-            clazz = (
-                Or,
-                MatchFirst,
-            )  # TODO: not correct, but allows merging of the two to a single longer list
         for e in self.exprs:
             f = e.streamline()
             same = same and f is e
-- 
2.43.0


From f8f830d596ed5021f69bc4ee7667b19f5e5b19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 014/100] fix: LineStart in regex form matched only the start
 of the text

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index cdc6a04..bed38ba 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -647,7 +647,7 @@ class LineStart(Token):
         return LineEnd()
 
     def __regex__(self):
-        return "*", "^"
+        return "*", "(?m:^)"
 
 
 class LineEnd(Token):
-- 
2.43.0


From 4ae134eddc10b991e7ce3a09a61f80ee2878944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:45 +0000
Subject: [PATCH 015/100] fix: NotAny(x) must reject exactly where x matches,
 also for compound x

---
 mo_parsing/enhancement.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 690c9b0..736d6a5 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -135,7 +135,7 @@ class NotAny(LookAhead):
     """
 
     zero_length = True
-    __slots__ = ["regex"]
+    __slots__ = ["regex", "use_regex"]
 
     def __init__(self, expr):
         super(NotAny, self).__init__(expr)
@@ -145,14 +145,25 @@ class NotAny(LookAhead):
         except Exception as c:
             self.regex = None
 
+        # TOKENS ACCEPT PRECISELY WHAT THEIR regex ACCEPTS, COMPOUND EXPRESSIONS DO NOT:
+        # THE regex WILL BACKTRACK, AND KNOWS NOTHING OF CONDITIONS
+        expr = self.expr
+        tokens = expr.exprs if expr.__class__.__name__ == "MatchFirst" else [expr]
+        self.use_regex = (
+            self.regex
+            and not expr.parse_action
+            and all(isinstance(t, Token) and not isinstance(t, Empty) and not t.parse_action for t in tokens)
+        )
+
     def copy(self):
         output = ParseEnhancement.copy(self)
         output.regex = self.regex
+        output.use_regex = self.use_regex
         return output
 
     def parse_impl(self, string, start, do_actions=True):
         regex = self.regex
-        if regex:
+        if self.use_regex:
             found = regex.match(string, start)
             if found:
                 return ParseResults(self, start, start, [], [])
-- 
2.43.0


From 755b3aafac29c07d96836dd572f33652777393d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 016/100] fix: Forward always reported min_length of zero, so
 valid grammars were refused as left recursive

---
 mo_parsing/enhancement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 736d6a5..879c1f7 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -638,12 +638,12 @@ class Forward(ParserElement):
             self._in_expecting = False
 
     def min_length(self):
-        if self.min_length_cache is None and self.expr:
+        if self.min_length_cache == -1 and self.expr:
             self.min_length_cache = 0  # BREAK CYCLE
             try:
                 return self.expr.min_length()
             finally:
-                self.min_length_cache = None
+                self.min_length_cache = -1
         return 0
 
     @property
-- 
2.43.0


From abbe51918e0e8538f27992754944d27fda8ac01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:10 +0000
Subject: [PATCH 017/100] fix: lookahead consumes nothing, min_length must be
 zero

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 879c1f7..256a855 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -113,6 +113,9 @@ class LookAhead(ParseEnhancement):
     def __init__(self, expr):
         ParseEnhancement.__init__(self, expr)
 
+    def _min_length(self):
+        return 0
+
     def parse_impl(self, string, start, do_actions=True):
         # by using self._expr.parse and deleting the contents of the returned ParseResults list
         # we keep any named results that were defined in the FollowedBy expression
-- 
2.43.0


From 5c3ace06fc1c9514174d1ea7b63909e4ceda6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:25 +0000
Subject: [PATCH 018/100] fix: shortlist of alternatives dropped, reordered, or
 unwrapped some that could match

---
 mo_parsing/enhancement.py | 10 +++++++++-
 mo_parsing/expressions.py | 32 +++++++++++++-------------------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 256a855..2b70271 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -455,6 +455,10 @@ class SkipTo(ParseEnhancement):
         )
         self.parser_name = str(self)
 
+    def expecting(self):
+        # TEXT IS SKIPPED BEFORE expr IS FOUND
+        return {}
+
     def min_length(self):
         return 0
 
@@ -636,7 +640,7 @@ class Forward(ParserElement):
         try:
             if not self.expr:
                 return {}
-            return self.expr.expecting()
+            return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
         finally:
             self._in_expecting = False
 
@@ -894,6 +898,10 @@ class PrecededBy(LookAhead):
         else:
             self.set_config(retreat=expr.min_length(), exact=False)
 
+    def expecting(self):
+        # LOOKS BEHIND, SO KNOWS NOTHING OF WHAT FOLLOWS
+        return {}
+
     def parse_impl(self, string, start=0, do_actions=True):
         if self.parser_config.exact:
             loc = start - self.parser_config.retreat
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ad79de8..3d98510 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -51,22 +51,13 @@ class ParseExpression(ParserElement):
 
     def expecting(self):
         output = OrderedDict()
-        if not self.is_annotated():
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, ee in expect.items():
-                    output.setdefault(k, []).extend(ee)
-        else:
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, _ in expect.items():
-                    output[k] = [self]
+        for e in self.exprs:
+            expect = e.expecting()
+            if not expect:
+                # NOT SURE WHAT THIS IS EXPECTING, BAIL
+                return {}
+            for k in expect.keys():
+                output[k] = [self]
         return output
 
     def copy(self):
@@ -592,7 +583,8 @@ def faster(exprs):
     out = []
     has_expecting = True
     for o in exprs:
-        p = o.expecting()
+        # EXPRESSIONS THAT CAN MATCH NOTHING DO NOT NEED THE EXPECTED CHARACTERS
+        p = o.expecting() if o.min_length() else {}
         if has_expecting:
             if p:
                 acc.append(p)
@@ -644,11 +636,11 @@ class Fast(ParserElement):
 
         all_keys = set()
         lookup = OrderedDict()
-        for m in maps:
+        for i, m in enumerate(maps):
             for k, ee in m.items():
                 k = k.lower()
                 all_keys.add(k)
-                lookup.setdefault(k, []).extend(ee)
+                lookup.setdefault(k, []).extend((i, e) for e in ee)
 
         # patterns must be mutually exclusive to work
         items = list(lookup.items())
@@ -669,6 +661,8 @@ class Fast(ParserElement):
                     acc.extend(ee)
                     ee.clear()
             if acc:
+                # IN THE ORIGINAL ORDER, AND ONCE EACH
+                acc = [e for i, e in sorted({i: e for i, e in acc}.items())]
                 compact.append((min_k, acc))
         if len(maps) - max(len(v) for k, v in compact) <= 1:
             Log.error("not useful")
-- 
2.43.0


From 254b2966ce00f3ce5f34ef854dab0f92e4a9e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:51 +0000
Subject: [PATCH 019/100] fix: Parser changed the global whitespace context
 without holding the lock

---
 mo_parsing/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 456af6f..1e8c6e1 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -107,6 +107,11 @@ def _verify_whitespace(whi: List):
 
 class Parser(object):
     def __init__(self, element):
+        with locker:
+            # WHITESPACE CONTEXT IS GLOBAL
+            self._init(element)
+
+    def _init(self, element):
         self.element = element = element.streamline()
         try:
             self.whitespace = (
-- 
2.43.0


From 49a28bc60edd1ad8555dbc92e8c74b47ee8f94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 020/100] fix: the generators of scan_string() and split()
 parsed without holding the lock

---
 mo_parsing/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 1e8c6e1..3f457e5 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -198,8 +198,9 @@ class Parser(object):
         matches = 0
         while end <= instrlen and matches < max_matches:
             try:
-                start = self.whitespace.skip(string, end)
-                tokens = self.element._parse(string, start)
+                with locker:
+                    start = self.whitespace.skip(string, end)
+                    tokens = self.element._parse(string, start)
             except ParseException:
                 end = start + 1
             else:
-- 
2.43.0


From 8cc023d5b8191270b6452bd790420b19364438f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:18 +0000
Subject: [PATCH 021/100] fix: Debugger changed the location given to parse
 actions

---
 mo_parsing/debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index bb79046..8cabe2f 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -59,7 +59,7 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, start, string)
+                    tokens = fn(tokens, tokens.start, string)
             except Exception as cause:
                 fail(self, start, string, cause)
                 raise
-- 
2.43.0


From 90104912606d4898be4353b2b7d288c0a787c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:29 +0000
Subject: [PATCH 022/100] fix: arguments of ParseException for bad unindent

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 225de4f..624f065 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -715,7 +715,7 @@ def indented_block(blockStatementExpr, indent=True):
                 return
             cur_col = col(l, s)
             if cur_col not in (i for i, _, _ in _indent_stack):
-                raise ParseException(s, l, "not an unindent")
+                raise ParseException(t.type, l, s, "not an unindent")
             if cur_col < _indent_stack[-1][0]:
                 old_col, old_peer, old_dedent = _indent_stack.pop()
                 PEER << old_peer
-- 
2.43.0


From 231e74d3dae64338811e96f60a7a1a634c49d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:20 +0000
Subject: [PATCH 023/100] fix: suppress() on a Group (or Forward to one) left
 an empty group in the results

---
 mo_parsing/enhancement.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 2b70271..68d1744 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -613,6 +613,10 @@ class Forward(ParserElement):
         self.parse_action.append(wrap_parse_action(action))
         return self
 
+    def suppress(self):
+        # THE RESULTS HAVE THE TYPE OF self.expr, WHICH MAY BE A Group
+        return Suppress(self)
+
     def leave_whitespace(self):
         with whitespaces.NO_WHITESPACE:
             output = self.copy()
@@ -780,6 +784,10 @@ class Group(TokenConverter):
     def is_annotated(self):
         return True
 
+    def suppress(self):
+        # NOT A GROUP, SO NOTHING REMAINS, NOT EVEN AN EMPTY GROUP
+        return Suppress(self)
+
 
 class Dict(Group):
     """
-- 
2.43.0


From 1d82d8041bf1ae906e8f9b0b03a700118c852e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:46 +0000
Subject: [PATCH 024/100] fix: Or with a single And (or MatchAll) could not be
 streamlined

---
 mo_parsing/expressions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 3d98510..13f3aa4 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -361,11 +361,9 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                output = Empty()
+                return Empty()
             if len(output.exprs) == 1:
-                output = output.exprs[0]
-                if not isinstance(output, ParseExpression):
-                    return output
+                return output.exprs[0]
 
         output.alternate = faster(output.exprs)
 
-- 
2.43.0


From f7463ddad3d04c5bb2c525d9610ed430a892b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 025/100] fix: expr * 0 matched any number of expr

---
 mo_parsing/core.py        | 3 +--
 mo_parsing/enhancement.py | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 3f457e5..3e67125 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -616,12 +616,11 @@ class ParserElement(object):
         elif min_elements < 0:
             raise ValueError("cannot multiply ParserElement by negative value")
 
-        if max_elements == Ellipsis or not max_elements:
+        if max_elements == Ellipsis or max_elements is None:
             max_elements = MAX_INT
         elif (
             not isinstance(max_elements, int)
             or max_elements < min_elements
-            or max_elements == 0
         ):
             raise TypeError(
                 "cannot multiply 'ParserElement' and ('%s', '%s') objects",
diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 68d1744..7057158 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -254,7 +254,7 @@ class Many(ParseEnhancement):
         count = 0
         failures = []
         try:
-            while end < len(string):
+            while end < len(string) and count < max:
                 index = self.parser_config.whitespace.skip(string, end)
                 if stopper:
                     if stopper.match(string, index):
@@ -269,8 +269,6 @@ class Many(ParseEnhancement):
                 acc.append(result)
                 failures.extend(result.failures)
                 count += 1
-                if count >= max:
-                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From b2e554d0407a98cb05fe063d30abd3182b4d8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:39 +0000
Subject: [PATCH 026/100] fix: Many(min=1, max=1) ignored its stop_on

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 7057158..f4f3b24 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -292,7 +292,7 @@ class Many(ParseEnhancement):
         if self.parser_config.min_match == self.parser_config.max_match and not self.is_annotated():
             if self.parser_config.min_match == 0:
                 return Empty()
-            elif self.parser_config.min_match == 1:
+            elif self.parser_config.min_match == 1 and not self.parser_config.end:
                 return expr
 
         if self.expr is expr:
-- 
2.43.0


From 34ad1941f0162b0a14b48bd7fcb3bc3785ecc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 027/100] fix: Combine ignored the parse actions and conditions
 of its expression

(and joins tokens that are not text as text, like the tokens were before the actions)
---
 mo_parsing/enhancement.py | 2 +-
 mo_parsing/results.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index f4f3b24..ef54727 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -736,7 +736,7 @@ class Combine(TokenConverter):
 
     def parse_impl(self, string, start, do_actions=True):
         try:
-            result = self.expr.parse_impl(string, start, do_actions=do_actions)
+            result = self.expr._parse(string, start, do_actions)
             return ParseResults(
                 self, start, result.end, [result.as_string(sep=self.parser_config.separator)], result.failures,
             )
diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 0d343c6..3277338 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -282,7 +282,7 @@ class ParseResults(object):
                 yield t
 
     def as_string(self, sep=""):
-        return sep.join(self._asStringList())
+        return sep.join(text(t) for t in self._asStringList())
 
     def as_list(self):
         """
-- 
2.43.0


From f01e377ee59ccbdd77cf3a084517cf25e250cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:45 +0000
Subject: [PATCH 028/100] fix: Char(as_keyword=True) could not be constructed

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index bed38ba..b26c766 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -449,7 +449,7 @@ class Char(Token):
             regex = regex_range(include)
 
         if as_keyword:
-            regex = r"\b%s\b" % self
+            regex = r"\b%s\b" % regex
         self.set_config(regex=regex_compile(regex), include=include, exclude=exclude)
 
     def parse_impl(self, string, start, do_actions=True):
-- 
2.43.0


From bc038bf9b3d1629f26f921d2ea9812c8b2b33f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 029/100] fix: set of characters ending with \\x06 lost its
 last characters

---
 mo_parsing/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c89a6e8..00b18c3 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -107,8 +107,8 @@ def regex_range(s, exclude=False):
     start = None
     prev = None
     acc = ["[^"] if exclude else ["["]
-    for c in list(sorted(set(s))) + ["\a"]:
-        if prev and ord(prev) == ord(c) - 1:
+    for c in list(sorted(set(s))) + [None]:
+        if prev and c and ord(prev) == ord(c) - 1:
             if not start:
                 start = prev
         elif start:
-- 
2.43.0


From bbc91466f20d931c4f26364e715c6a5b12474634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 030/100] fix: Or and MatchAll called parse actions twice, and
 while only looking ahead

---
 mo_parsing/expressions.py | 88 ++++++++-------------------------------
 1 file changed, 18 insertions(+), 70 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 13f3aa4..5afbfde 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -1,7 +1,6 @@
 # encoding: utf-8
 import json
 from collections import OrderedDict
-from operator import itemgetter
 
 from mo_future import Iterable, text, generator_types
 from mo_imports import export
@@ -377,24 +376,19 @@ class Or(ParseExpression):
 
     def parse_impl(self, string, start, do_actions=True):
         failures = []
-        matches = []
+        longest = None
 
         for e in self.alternate:
-            if isinstance(e, Fast):
-                for ee in e.get_short_list(string, start):
-                    try:
-                        end = ee._parse(string, start).end
-                        matches.append((end, ee))
-                    except ParseException as err:
-                        failures.append(err)
-            else:
+            for ee in e.get_short_list(string, start) if isinstance(e, Fast) else [e]:
                 try:
-                    end = e._parse(string, start).end
-                    matches.append((end, e))
+                    # PARSED ONCE, SO PARSE ACTIONS ARE CALLED ONCE
+                    result = ee._parse(string, start, do_actions)
+                    if longest is None or result.end > longest.end:
+                        longest = result
                 except ParseException as err:
                     failures.append(err)
 
-        if not matches:
+        if longest is None:
             raise ParseException(
                 self,
                 start,
@@ -402,52 +396,8 @@ class Or(ParseExpression):
                 msg="no defined alternatives to match",
                 cause=failures,
             )
-        if len(matches) == 1:
-            _, expr = matches[0]
-            result = expr._parse(string, start, do_actions)
-            failures.extend(result.failures)
-            return ParseResults(self, result.start, result.end, [result], failures)
-
-        if matches:
-            # re-evaluate all matches in descending order of length of match, in case attached actions
-            # might change whether or how much they match of the input.
-            matches.sort(key=itemgetter(0), reverse=True)
-
-            if not do_actions:
-                # no further conditions or parse actions to change the selection of
-                # alternative, so the first match will be the best match
-                _, expr = matches[0]
-                result = expr._parse(string, start, do_actions)
-                failures.extend(result.failures)
-                return ParseResults(self, result.start, result.end, [result], failures)
-
-            longest = -1, None
-            for loc, expr in matches:
-                if loc <= longest[0]:
-                    # already have a longer match than this one will deliver, we are done
-                    return longest
-
-                try:
-                    result = expr._parse(string, start, do_actions)
-                except ParseException as err:
-                    failures.append(err)
-                else:
-                    failures.extend(result.failures)
-                    if result.end >= loc:
-                        return ParseResults(
-                            self, result.start, result.end, [result], failures
-                        )
-                    # didn't match as much as before
-                    elif result.end > longest[0]:
-                        longest = (
-                            result.end,
-                            ParseResults(
-                                self, result.start, result.end, [result], failures,
-                            ),
-                        )
-
-            if longest != (-1, None):
-                return longest
+        failures.extend(longest.failures)
+        return ParseResults(self, longest.start, longest.end, [longest], failures)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
@@ -769,10 +719,11 @@ class MatchAll(ParseExpression):
         ))
         count = [0] * len(self.exprs)
         failures = []
+        results = []  # PARSED ONCE, SO PARSE ACTIONS ARE CALLED ONCE
         while todo:
             for i, (c, (e, mi, ma)) in enumerate(zip(count, todo)):
                 try:
-                    result = e._parse(string, end)
+                    result = e._parse(string, end, do_actions)
                     failures.extend(result.failures)
                     loc = result.end
                     if loc == end:
@@ -783,6 +734,7 @@ class MatchAll(ParseExpression):
                         del todo[i]
                         del count[i]
                     match_order.append(e)
+                    results.append(result)
                     break
                 except ParseException as pe:
                     failures.append(pe)
@@ -816,19 +768,15 @@ class MatchAll(ParseExpression):
             )
 
         # add any unmatched Optionals, in case they have default values defined
-        match_order += [e for e in self.exprs if id(e) not in found]
+        for e in self.exprs:
+            if id(e) not in found:
+                result = e._parse(string, end, do_actions)
+                end = self.parser_config.whitespace.skip(string, result.end)
+                results.append(result)
 
-        if not match_order:
+        if not results:
             return ParseResults(self, start, start, [], failures)
 
-        # TODO: CAN WE AVOID THIS RE-PARSE?
-        results = []
-        end = start
-        for e in match_order:
-            result = e._parse(string, end, do_actions)
-            end = self.parser_config.whitespace.skip(string, result.end)
-            results.append(result)
-
         return ParseResults(self, results[0].start, results[-1].end, results, failures)
 
     def __str__(self):
-- 
2.43.0


From a09aca1586d74f8ce73f6287830d67a712874da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 031/100] fix: completing 'x + ...' changed the expression, so
 it could not be used twice

---
 mo_parsing/expressions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 5afbfde..e47ff13 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -156,7 +156,7 @@ class And(ParseExpression):
                         )
                 else:
                     tmp.append(expr)
-            exprs[:] = tmp
+            exprs = tmp
         super(And, self).__init__(exprs)
         self.set_config(whitespace=whitespace or whitespaces.CURRENT)
 
@@ -178,15 +178,18 @@ class And(ParseExpression):
             for e in exprs[:-1]
         ):
             same = False
+            exprs = list(exprs)
             for i, e in enumerate(exprs[:-1]):
                 if (
                     isinstance(e, ParseExpression)
                     and e.exprs
                     and isinstance(e.exprs[-1], _PendingSkip)
                 ):
+                    # e MAY BE USED ELSEWHERE, DO NOT CHANGE IT
                     ee = e.exprs[-1] + exprs[i + 1]
-                    e.exprs[-1] = ee
-                    e.streamlined = False
+                    exprs[i] = e.copy()
+                    exprs[i].exprs = e.exprs[:-1] + [ee]
+                    exprs[i].streamlined = False
                     exprs[i + 1] = None
 
         # streamline INDIVIDUAL EXPRESSIONS
-- 
2.43.0


From 4495c8e8135c464bf9473295da250bb1ee222242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:58 +0000
Subject: [PATCH 032/100] fix: add_ignore() failed when no characters are
 whitespace

---
 mo_parsing/whitespaces.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index 7815d90..c55f501 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -167,14 +167,13 @@ class Whitespace(ParserElement):
         self._in_regex = True
         try:
             white = regex_range(self.white_chars)
+            if white:
+                white += "*"
             if not self.ignore_list:
-                if not white:
-                    return "*", ""
-                else:
-                    return "*", white + "*"
+                return "*", white
 
             ignored = "|".join(regex_iso(*i.__regex__(), "|") for i in self.ignore_list)
-            return "+", f"(?:{white}*(?:{ignored}))*{white}*"
+            return "+", f"(?:{white}(?:{ignored}))*{white}"
         finally:
             self._in_regex = False
 
-- 
2.43.0


From 7c2a0c89a4b7511ff60ba9f92d8e8be0f32c27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:50 +0000
Subject: [PATCH 033/100] fix: silent Debugger printed the failures of parse
 actions

---
 mo_parsing/debug.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index 8cabe2f..69653f5 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -61,7 +61,8 @@ def _debug_parse(debugger):
                 for fn in self.parse_action:
                     tokens = fn(tokens, tokens.start, string)
             except Exception as cause:
-                fail(self, start, string, cause)
+                if not debugger.silent:
+                    fail(self, start, string, cause)
                 raise
         if not debugger.silent:
             match(self, loc, tokens.end, string, tokens)
-- 
2.43.0


From 0c937e978866b9bf4fe85dccaa7b9e1b9b2cf1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 034/100] fix: scan_string() reported a match twice when it is
 empty, or overlapping, and after whitespace

---
 mo_parsing/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 3e67125..75ce90c 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -206,8 +206,8 @@ class Parser(object):
             else:
                 matches += 1
                 yield tokens, tokens.start, tokens.end
-                if overlap or tokens.end <= end:
-                    end += 1
+                if overlap or tokens.end <= start:
+                    end = start + 1
                 else:
                     end = tokens.end
 
-- 
2.43.0


From 90b74ba52cfac00345f76c27f876a802d4d2891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:32 +0000
Subject: [PATCH 035/100] fix: scan_string() and split() lost the name of the
 expression

---
 mo_parsing/core.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 75ce90c..08c31ba 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -170,13 +170,20 @@ class Parser(object):
                         self.element, 0, string, cause=tokens.failures + [pe]
                     ) from None
 
-            if self.named:
-                return tokens
-            else:
-                return tokens.tokens[0]
+            return self._result(tokens)
         except ParseException as cause:
             raise cause.best_cause from None
 
+    def _result(self, tokens):
+        """
+        :param tokens: MATCH OF THE ENCLOSING Group
+        :return: WHAT THE CALLER GETS (KEEP ENCLOSING Group SO THE NAME CAN BE FOUND)
+        """
+        if self.named:
+            return tokens
+        else:
+            return tokens.tokens[0]
+
     @entrypoint
     def scan_string(self, string, max_matches=MAX_INT, overlap=False):
         """
@@ -186,7 +193,7 @@ class Parser(object):
         :return: SEQUENCE OF ParseResults, start, end
         """
         return (
-            (t.tokens[0], s, e)
+            (self._result(t), s, e)
             for t, s, e in self._scan_string(
                 string, max_matches=max_matches, overlap=overlap
             )
@@ -303,7 +310,7 @@ class Parser(object):
         for t, s, e in self._scan_string(string, max_matches=maxsplit):
             yield string[last:s]
             if include_separators:
-                yield t.tokens[0]
+                yield self._result(t)
             last = e
         yield string[last:]
 
-- 
2.43.0


From 6512010fedcf92ca632125ff935735a94537be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 036/100] fix: transform_string() failed on groups and on
 tokens that are not text

---
 mo_parsing/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 08c31ba..dd1edbe 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -252,7 +252,7 @@ class Parser(object):
             t = t.tokens[0]
             if t:
                 if isinstance(t, ParseResults):
-                    out.append("".join(t))
+                    out.append(t.as_string())
                 elif isinstance(t, list):
                     out.append("".join(t))
                 else:
-- 
2.43.0


From 31c77edca7d27601e042909555309832a0574c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 037/100] fix: infix_notation took operators for operands,
 ignored precedence around prefix operators, and dropped what it could not
 reduce

---
 mo_parsing/infix.py | 59 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index d5c9874..dbdaa76 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -13,6 +13,7 @@ from mo_parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from mo_parsing.exceptions import ParseException
 from mo_parsing.expressions import MatchFirst, Or
 from mo_parsing.results import ParseResults, NO_PARSER
 from mo_parsing.tokens import (
@@ -228,6 +229,41 @@ def infix_notation(
             ))
     op_list = tuple(op_list)
 
+    # HOW EACH OPERATOR COMPETES FOR THE OPERAND ON ITS RIGHT, AND ON ITS LEFT
+    # (THE OPERAND BETWEEN THE TWO PARTS OF A TERNARY OPERATOR IS NOT IN COMPETITION)
+    takes_right, takes_left = {}, {}
+    for level, (expr, op, is_suppressed, arity, assoc, pa) in enumerate(op_list):
+        if arity == 1:
+            (takes_right if assoc == RIGHT_ASSOC else takes_left).setdefault(
+                (arity, assoc, op), level
+            )
+        elif arity == 2:
+            takes_right.setdefault(op, level)
+            takes_left.setdefault(op, level)
+        else:
+            takes_right.setdefault(op[1], level)
+            takes_left.setdefault(op[0], level)
+
+    def ready(tokens, start, level):
+        """
+        :return: True IF OPERATOR HAS ALL ITS OPERANDS, AND NO NEIGHBOUR HAS PRECEDENCE OVER THEM
+        """
+        expr, op, is_suppressed, arity, assoc, pa = op_list[level]
+        is_prefix = arity == 1 and assoc == RIGHT_ASSOC
+        is_suffix = arity == 1 and assoc == LEFT_ASSOC
+        end = start + (0, 2, 3, 5)[arity]
+        if any(o is not None for _, o in tokens[start + is_prefix : end : 2]):
+            return False
+        if start > 0 and not is_prefix:
+            other = takes_right.get(tokens[start - 1][1], level + 1)
+            if other < level or (other == level and assoc == LEFT_ASSOC):
+                return False
+        if end < len(tokens) and not is_suffix:
+            other = takes_left.get(tokens[end][1], level + 1)
+            if other < level or (other == level and assoc == RIGHT_ASSOC):
+                return False
+        return True
+
     def record_op(op):
         def output(tokens):
             return ParseResults(NO_PARSER, tokens.start, tokens.end, [(tokens, op)], [])
@@ -235,12 +271,12 @@ def infix_notation(
         return output
 
     prefix_ops = MatchFirst([
-        op / record_op(op)
+        op / record_op((arity, assoc, op))
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == RIGHT_ASSOC
     ])
     suffix_ops = MatchFirst([
-        op / record_op(op)
+        op / record_op((arity, assoc, op))
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == LEFT_ASSOC
     ])
@@ -265,7 +301,7 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == (arity, assoc, op) and ready(flat_tokens, i, op_index):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -283,7 +319,7 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == (arity, assoc, op) and ready(flat_tokens, i, op_index):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -303,7 +339,7 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op:
+                    if o == op and ready(flat_tokens, i, op_index):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -333,7 +369,7 @@ def infix_notation(
                 for i, (r0, o0) in todo:
                     if o0 == op[0]:
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1]:
+                        if o1 == op[1] and ready(flat_tokens, i, op_index):
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
@@ -354,11 +390,16 @@ def infix_notation(
                     continue
 
             for p in parse_actions:
-                result = p(result, -1, string)
+                result = p(result, result.start, string)
             offset = (0, 2, 3, 5)[arity]
-            flat_tokens[i : i + offset] = [(result, (expr,))]
+            flat_tokens[i : i + offset] = [(result, None)]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(
+                tokens.type, tokens.start, string, "operators do not have their operands",
+            )
+
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
@@ -366,7 +407,7 @@ def infix_notation(
 
     flat = Forward()
     iso = lpar.suppress() + flat + rpar.suppress()
-    atom = (base_expr | iso) / record_op(base_expr)
+    atom = (base_expr | iso) / record_op(None)
     decorated = ZeroOrMore(prefix_ops) + atom + ZeroOrMore(suffix_ops)
     flat << ((decorated + ZeroOrMore(ops + decorated)) / make_tree).streamline()
 
-- 
2.43.0


From 352552a320053f80346e27b72f361920325bd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 038/100] fix: alternatives without members matched on the
 first parse and failed on the next

---
 mo_parsing/expressions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e47ff13..ffce97c 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -13,7 +13,7 @@ from mo_parsing.exceptions import (
     ParseSyntaxException,
 )
 from mo_parsing.results import ParseResults
-from mo_parsing.tokens import Empty
+from mo_parsing.tokens import Empty, NoMatch
 from mo_parsing.utils import (
     empty_tuple,
     is_forward,
@@ -79,13 +79,14 @@ class ParseExpression(ParserElement):
     def streamline(self):
         if self.streamlined:
             return self
-        self.streamlined = True
 
         # collapse nested And's of the form And(And(And(a, b), c), d) to And(a, b, c, d)
         # but only if there are no parse actions or resultsNames on the nested And's
         # (likewise for Or's and MatchFirst's)
         if not self.is_annotated() and not self.exprs:
-            return Empty(self.parser_name)
+            # NO ALTERNATIVES NEVER MATCH, AN EMPTY SEQUENCE ALWAYS DOES
+            return NoMatch() if isinstance(self, (Or, MatchFirst)) else Empty(self.parser_name)
+        self.streamlined = True
 
         acc = []
         same = True
@@ -472,7 +473,7 @@ class MatchFirst(ParseExpression):
 
         output = ParseExpression.streamline(self)
 
-        if isinstance(output, Empty):
+        if not isinstance(output, ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-- 
2.43.0


From 771889873df65ce33d34bdfc82e21225e9beeb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 039/100] fix: streamlining an expression of one alternative
 gave a different expression the second time

---
 mo_parsing/expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ffce97c..1a87ae1 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -86,7 +86,6 @@ class ParseExpression(ParserElement):
         if not self.is_annotated() and not self.exprs:
             # NO ALTERNATIVES NEVER MATCH, AN EMPTY SEQUENCE ALWAYS DOES
             return NoMatch() if isinstance(self, (Or, MatchFirst)) else Empty(self.parser_name)
-        self.streamlined = True
 
         acc = []
         same = True
@@ -110,7 +109,7 @@ class ParseExpression(ParserElement):
 
         output = self.copy()
         output.exprs = acc
-        output.streamlined = True
+        output.streamlined = False
         return output
 
     def __regex__(self):
@@ -695,6 +694,9 @@ class MatchAll(ParseExpression):
         if self.streamlined:
             return self
         output = ParseExpression.streamline(self)
+        if not isinstance(output, ParseExpression):
+            return output
+        output.streamlined = True
         output.set_config(
             min_match=[
                 e.parser_config.min_match if isinstance(e, Many) else 1
-- 
2.43.0


From a30134899be63bded3f934157b614b301dfc201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 040/100] fix: alternatives refused a repetition that skips
 whitespace of its own

---
 mo_parsing/enhancement.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ef54727..861cdcc 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -245,6 +245,16 @@ class Many(ParseEnhancement):
     def whitespace(self):
         return self.parser_config.whitespace
 
+    def expecting(self):
+        # WHITESPACE IS SKIPPED BEFORE expr IS FOUND
+        skipped = self.parser_config.whitespace
+        if skipped.ignore_list:
+            return {}
+        output = ParseEnhancement.expecting(self)
+        if output:
+            output.update((c, [self]) for c in skipped.white_chars)
+        return output
+
     def parse_impl(self, string, start, do_actions=True):
         acc = []
         end = start
-- 
2.43.0


From 775ca308be9ed6df636c13dc9606ec44bff2252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 041/100] fix: QuotedString hung on unterminated text when used
 in another pattern, and missed esc_quote

---
 mo_parsing/helpers.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 624f065..b0516ec 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -20,7 +20,7 @@ from mo_parsing.enhancement import (
     Many,
 )
 from mo_parsing.exceptions import ParseException
-from mo_parsing.expressions import And
+from mo_parsing.expressions import And, MatchFirst
 from mo_parsing.infix import delimited_list
 from mo_parsing.regex import Regex
 from mo_parsing.results import ParseResults, Annotation
@@ -87,26 +87,23 @@ def QuotedString(
     if not end_quote_char:
         Log.error("end_quote_char cannot be the empty string")
 
-    excluded = Literal(end_quote_char)
-
     if multiline:
         anychar = AnyChar()
     else:
         anychar = Char(exclude="\n")
-        excluded |= Char("\r\n")
 
     with whitespaces.NO_WHITESPACE:
-        included = ~Literal(end_quote_char) + anychar
-
-        if esc_quote:
-            included = Literal(esc_quote) | included
+        escaped = []
         if esc_char:
-            excluded |= Literal(esc_char)
-            included = esc_char + Char(printables) | included
+            escaped.append(esc_char + Char(printables))
             esc_char_replace_pattern = re.escape(esc_char) + "(.)"
+        if esc_quote:
+            escaped.append(Literal(esc_quote))
 
+        # THERE IS ONLY ONE WAY TO MATCH, OTHERWISE THERE IS PATHOLOGICAL BACKTRACKING
+        other = ~MatchFirst(escaped + [Literal(end_quote_char)]) + anychar
         prec, pattern = (
-            Literal(quote_char) + ((~excluded + anychar) | included)[0:]
+            Literal(quote_char) + MatchFirst(escaped + [other])[0:]
         ).__regex__()
         # IMPORTANT: THE end_quote_char IS OUTSIDE THE Regex BECAUSE OF PATHOLOGICAL BACKTRACKING
         output = Combine(Regex(pattern) + Literal(end_quote_char))
-- 
2.43.0


From 89396434cfc55769814768eb60e02ea0f10aa21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 042/100] fix: QuotedString decoded an escaped escape character
 followed by t, n, f or r as whitespace

---
 mo_parsing/helpers.py | 46 ++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index b0516ec..05d158c 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -96,7 +96,6 @@ def QuotedString(
         escaped = []
         if esc_char:
             escaped.append(esc_char + Char(printables))
-            esc_char_replace_pattern = re.escape(esc_char) + "(.)"
         if esc_quote:
             escaped.append(Literal(esc_quote))
 
@@ -108,31 +107,38 @@ def QuotedString(
         # IMPORTANT: THE end_quote_char IS OUTSIDE THE Regex BECAUSE OF PATHOLOGICAL BACKTRACKING
         output = Combine(Regex(pattern) + Literal(end_quote_char))
 
+    # ALL ESCAPES ARE REPLACED IN ONE PASS, OTHERWISE RESULTS OF ONE LOOK LIKE ANOTHER
+    ws_map = {
+        r"\t": "\t",
+        r"\n": "\n",
+        r"\f": "\f",
+        r"\r": "\r",
+    }
+    escapes = []
+    if convert_whitespace_escape:
+        escapes.append(r"\\[tnfr]")
+    if esc_char:
+        escapes.append(re.escape(esc_char) + "(?P<char>.)")
+    if esc_quote:
+        escapes.append(re.escape(esc_quote))
+    escapes = re.compile("|".join(escapes)) if escapes else None
+
+    def replace_escape(found):
+        escape = found.group(0)
+        if convert_whitespace_escape and escape in ws_map:
+            return ws_map[escape]
+        if esc_char and found.group("char"):
+            return found.group("char")
+        return end_quote_char
+
     def post_parse(tokens):
         ret = tokens[0]
         if unquote_results:
             # strip off quotes
             ret = ret[len(quote_char) : -len(end_quote_char)]
 
-            if isinstance(ret, text):
-                # replace escaped whitespace
-                if "\\" in ret and convert_whitespace_escape:
-                    ws_map = {
-                        r"\t": "\t",
-                        r"\n": "\n",
-                        r"\f": "\f",
-                        r"\r": "\r",
-                    }
-                    for wslit, wschar in ws_map.items():
-                        ret = ret.replace(wslit, wschar)
-
-                # replace escaped characters
-                if esc_char:
-                    ret = re.sub(esc_char_replace_pattern, r"\g<1>", ret)
-
-                # replace escaped quotes
-                if esc_quote:
-                    ret = ret.replace(esc_quote, end_quote_char)
+            if isinstance(ret, text) and escapes:
+                ret = escapes.sub(replace_escape, ret)
 
         return ParseResults(tokens.type, tokens.start, tokens.end, [ret], [])
 
-- 
2.43.0


From 6fd1214966d807fca270b4b2df40e9ace00f832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 043/100] fix: predefined quoted strings accepted, and dropped,
 whitespace before a quote

---
 mo_parsing/helpers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 05d158c..4e9e0a1 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -145,21 +145,22 @@ def QuotedString(
     return (output / post_parse).streamline()
 
 
+# THE CLOSING QUOTE MUST FOLLOW IMMEDIATELY, OR WHITESPACE IS SKIPPED (AND LOST)
 dblQuotedString = Combine(
     #       0         1         2         3         4         5
     #       012345678901234567890123456789012345678901234567890123456789
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*')
+    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+(?![0-9a-fA-F]))))*(?="(?!"))')
     + '"'
 ).set_parser_name("string enclosed in double quotes")
 sglQuotedString = Combine(
-    Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
+    Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+(?![0-9a-fA-F]))))*(?='(?!'))") + "'"
 ).set_parser_name("string enclosed in single quotes")
 quoted_string = Combine(
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*') + '"'
-    | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
+    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+(?![0-9a-fA-F]))))*(?="(?!"))') + '"'
+    | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+(?![0-9a-fA-F]))))*(?='(?!'))") + "'"
 ).set_parser_name("quoted_string using single or double quotes")
 unicode_string = Combine(
-    Literal("u") + quoted_string
+    Regex(r"u(?=['\"])") + quoted_string
 ).set_parser_name("unicode string literal")
 
 
-- 
2.43.0


From 860d0578f02415f3aa05f6b3212b84d83b1f79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 044/100] fix: Regex with {n,} or {,n} could not be made

---
 mo_parsing/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 57489fe..8dab627 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -36,6 +36,7 @@ from mo_parsing.tokens import (
     SingleCharLiteral,
 )
 from mo_parsing.utils import (
+    MAX_INT,
     printables,
     alphas,
     alphanums,
@@ -123,8 +124,8 @@ def repeat(tokens):
             return Many(
                 operand,
                 NO_WHITESPACE,
-                min_match=int(operator["min"]),
-                max_match=int(operator["max"]),
+                min_match=int(operator["min"] or 0),
+                max_match=int(operator["max"] or MAX_INT),
             )
     elif mode in "*?":
         return ZeroOrMore(operand, NO_WHITESPACE)
-- 
2.43.0


From b88dc275083db473e1c80994f66fbd650bec91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 045/100] fix: Regex expected the wrong text when its pattern
 was not fully understood (anchors, escapes, adjacent characters)

---
 mo_parsing/regex.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 8dab627..07e33ac 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -30,6 +30,7 @@ from mo_parsing.results import ParseResults, Annotation
 from mo_parsing.tokens import (
     Literal,
     AnyChar,
+    Empty,
     LineStart,
     LineEnd,
     Word,
@@ -167,22 +168,23 @@ macro = (
     | bs_char
     | tab_char
 )
-escaped_char = (~macro + Combine("\\" + AnyChar())) / (lambda t: Literal(t.value()[1]))
+escaped_char = Combine("\\" + Char(exclude=alphanums)) / (lambda t: Literal(t.value()[1]))
 plain_char = Char(exclude=r"\]") / (lambda t: Literal(t.value()))
 
 escaped_hex = (
     Combine(
-        (Literal("\\0x") | Literal("\\x") | Literal("\\X"))  # lookup literals is faster
-        + OneOrMore(Char(hexnums), NO_WHITESPACE)
+        Literal("\\x") + Many(Char(hexnums), NO_WHITESPACE, exact=2)
     )
     / hex_to_char
 )
 
 escaped_oct = Combine(
-    Literal("\\0") + OneOrMore(Char("01234567"), NO_WHITESPACE)
+    Literal("\\0") + Many(Char("01234567"), NO_WHITESPACE, min_match=1, max_match=2)
 ) / (lambda t: Literal(unichr(int(t.value()[2:], 8))))
 
-single_char = escaped_hex | escaped_oct | escaped_char | plain_char
+single_char = (
+    escaped_hex | escaped_oct | CR | LF | bs_char | tab_char | escaped_char | plain_char
+)
 
 range_char = Group(single_char("min") + "-" + single_char("max")) / to_range
 
@@ -200,10 +202,8 @@ regex = Forward()
 line_start = Literal("^") / (lambda: LineStart())
 line_end = Literal("$") / (lambda: LineEnd())
 word_edge = Literal("\\b") / (lambda: NotAny(any_wordchar))
-simple_char = Word(
-    printables, exclude=r".^$*+{}[]\|()"
-) / (lambda t: Literal(t.value()))
-esc_char = ("\\" + AnyChar()) / (lambda t: Literal(t.value()[1]))
+simple_char = Char(exclude=r".^$*+?{}[]\|()") / (lambda t: Literal(t.value()))
+esc_char = escaped_hex | escaped_oct | escaped_char
 
 with Whitespace():
     # ALLOW SPACES IN THE RANGE
@@ -240,6 +240,8 @@ term = (
     macro
     | simple_char
     | esc_char
+    | line_start
+    | line_end
     | word_edge
     | brackets
     | ahead
@@ -277,8 +279,14 @@ class Regex(ParseEnhancement):
         :param pattern:  THE REGEX PATTERN
         :param asGroupList: RETURN A LIST OF CAPTURED GROUPS /1, /2, /3, ...
         """
-        parsed = regex.parse_string(pattern)
-        ParseEnhancement.__init__(self, parsed.value().streamline())
+        if not pattern:
+            Log.error("expecting a pattern")
+        try:
+            expr = regex.parse_string(pattern, parse_all=True).value().streamline()
+        except ParseException:
+            # NOT ALL OF THE PATTERN IS UNDERSTOOD, SO WE KNOW NOTHING OF WHAT IT EXPECTS
+            expr = And([Empty()], NO_WHITESPACE)
+        ParseEnhancement.__init__(self, expr)
         # WE ASSUME IT IS SAFE TO ASSIGN regex (NO SERIOUS BACKTRACKING PROBLEMS)
         self.streamlined = True
         self.regex = regex_compile(pattern)
-- 
2.43.0


From c9a7f31da8c7f08c02eaf8937f5d09eaf86ed5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 046/100] fix: alternatives refused a Regex whose \\w, \\d or
 \\s matches non-ascii text

---
 mo_parsing/regex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 07e33ac..352be4c 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -365,6 +365,9 @@ class Regex(ParseEnhancement):
         return output
 
     def expecting(self):
+        if unicode_classes.search(self.regex.pattern):
+            # THESE MATCH MORE THAN THE ASCII CHARACTERS
+            return OrderedDict()
         return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
 
     def min_length(self):
@@ -378,6 +381,7 @@ class Regex(ParseEnhancement):
 
 
 _plain_group = Group(None)
+unicode_classes = regex_compile(r"\\[wWdDsS]")
 
 export("mo_parsing.core", "regex_parameters", parameters)
 export("mo_parsing.tokens", Regex)
-- 
2.43.0


From c8f039a12151d7df798a520e9c4c1485fe43c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 047/100] fix: Regex groups and substitution failed for
 lookaround, nested groups and groups beyond 9

---
 mo_parsing/regex.py | 32 ++++++++++++++++----------------
 mo_parsing/utils.py | 11 +++++++++++
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 352be4c..29c1a16 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -6,7 +6,7 @@
 from collections import OrderedDict
 from string import whitespace
 
-from mo_future import unichr, is_text
+from mo_future import unichr, is_text, text
 from mo_imports import export
 
 from mo_parsing.core import add_reset_action
@@ -46,6 +46,7 @@ from mo_parsing.utils import (
     Log,
     enlist,
     regex_compile,
+    regex_min_length,
     ParseException,
 )
 from mo_parsing.whitespaces import Whitespace, NO_WHITESPACE
@@ -302,26 +303,24 @@ class Regex(ParseEnhancement):
         NAMED GROUPS (eg (?P<name>...)
         """
 
-        def group_list(tokens):
-            start, end = tokens.start, tokens.end
+        def group_list(tokens, start, string):
+            end = tokens.end
             # RE-MATCH  :(
-            sub_string = tokens.tokens[0]
-            found = tokens.type.regex.match(sub_string)
+            found = tokens.type.regex.match(string, start)
             lookup = dict(reversed(p) for p in found.re.groupindex.items())
             ann = []
             pe = 0
             for i, (s, e) in enumerate(found.regs[1:], start=1):
                 if s == -1:
                     continue  # NOT FOUND
-                g = sub_string[s:e]
+                g = string[s:e]
                 if pe <= s:
                     ann.append(g)
-                pe = e
-                ii = chr(i + ord("0"))
-                ann.append(Annotation(ii, s + start, e + start, [g]))
+                pe = max(pe, e)
+                ann.append(Annotation(text(i), s, e, [g]))
                 n = lookup.get(i)
                 if n:
-                    ann.append(Annotation(n, s + start, e + start, [g]))
+                    ann.append(Annotation(n, s, e, [g]))
             return ParseResults(_plain_group, start, end, ann, [])
 
         return self / group_list
@@ -330,15 +329,16 @@ class Regex(ParseEnhancement):
         # MIMIC re.sub
         if is_text(replacement):
             # USE PYTHON REGEX
-            def pa(tokens):
-                return tokens.type.regex.sub(replacement, tokens[0])
+            def pa(tokens, start, string):
+                found = tokens.type.regex.match(string, start)
+                return found.expand(replacement)
 
             output = self / pa
             return output
         else:
             # A FUNCTION
-            def pf(tokens):
-                regex_result = tokens.type.regex.match(tokens.tokens[0])
+            def pf(tokens, start, string):
+                regex_result = tokens.type.regex.match(string, start)
                 return replacement(regex_result)
 
             return self / pf
@@ -370,8 +370,8 @@ class Regex(ParseEnhancement):
             return OrderedDict()
         return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
 
-    def min_length(self):
-        return self.expr.min_length()
+    def _min_length(self):
+        return regex_min_length(self.regex.pattern)
 
     def __regex__(self):
         if self.regex:
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 00b18c3..5a46ba1 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -63,6 +63,17 @@ def regex_compile(pattern):
         Log.error("could not compile {{pattern}}", pattern=pattern, cause=cause)
 
 
+try:
+    from re import _parser as sre_parse
+except ImportError:
+    import sre_parse
+
+
+def regex_min_length(pattern):
+    """RETURN THE LENGTH OF THE SHORTEST MATCH"""
+    return sre_parse.parse(pattern).getwidth()[0]
+
+
 regex_type = type(regex_compile("[A-Z]"))
 
 
-- 
2.43.0


From 353ddddfbf4a1013a78b62b64a7badfee76265c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 048/100] fix: alternatives lost the failures of what they
 tried first

---
 mo_parsing/expressions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 1a87ae1..28b02ac 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -386,6 +386,8 @@ class Or(ParseExpression):
                 try:
                     # PARSED ONCE, SO PARSE ACTIONS ARE CALLED ONCE
                     result = ee._parse(string, start, do_actions)
+                    # MAY BE WHAT STOPS THE PARSE LATER
+                    failures.extend(result.failures)
                     if longest is None or result.end > longest.end:
                         longest = result
                 except ParseException as err:
@@ -399,7 +401,6 @@ class Or(ParseExpression):
                 msg="no defined alternatives to match",
                 cause=failures,
             )
-        failures.extend(longest.failures)
         return ParseResults(self, longest.start, longest.end, [longest], failures)
 
     def check_recursion(self, seen=empty_tuple):
@@ -652,7 +653,11 @@ class Fast(ParserElement):
             causes = []
             for e in exprs:
                 try:
-                    return e._parse(string, start, do_actions)
+                    result = e._parse(string, start, do_actions)
+                    if causes:
+                        # MAY BE WHAT STOPS THE PARSE LATER
+                        result.failures = causes + result.failures
+                    return result
                 except ParseException as cause:
                     causes.append(cause)
 
-- 
2.43.0


From 2e436e9645fff6c41622eb858b7cd8c4b60eb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 049/100] fix: Char ignored the name given to it when reporting
 failures

---
 mo_parsing/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index b26c766..885f19b 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -472,6 +472,8 @@ class Char(Token):
         return "*", self.parser_config.regex.pattern
 
     def __str__(self):
+        if self.parser_name:
+            return self.parser_name
         return self.parser_config.regex.pattern
 
 
-- 
2.43.0


From e409303fd817ee8438fceaf4d8c3b5a441535cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 050/100] fix: repetition cut short by the end of the text was
 reported at its start

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 861cdcc..3450f0d 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -284,6 +284,9 @@ class Many(ParseEnhancement):
             failures.append(cause)
 
         if count < min:
+            if end >= len(string):
+                # THE TEXT ENDS WHERE ANOTHER IS EXPECTED
+                failures.append(ParseException(self.expr, end, string))
             raise ParseException(self, start, string, f"Expecting at least {min} of {self}", failures)
         elif max < count:
             raise ParseException(
-- 
2.43.0


From 0775f132c2ae4fccd387b8e6ba6b931963c6fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 051/100] fix: failures with equally good causes were reported
 as NoMatch

---
 mo_parsing/exceptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/exceptions.py b/mo_parsing/exceptions.py
index 567c5f2..1a04295 100644
--- a/mo_parsing/exceptions.py
+++ b/mo_parsing/exceptions.py
@@ -200,12 +200,12 @@ def compare_causes(a, b):
                     return 1
             elif a.expr.parser_name:
                 return -1
+            elif bool(a._msg) == bool(b._msg):
+                return 0
             elif b._msg:
                 return 1
-            elif a._msg:
-                return -1
             else:
-                return 0
+                return -1
         else:
             return 1
     elif isinstance(b, ParseException):
-- 
2.43.0


From 20979004e45c9ff83a57d8db872d4ad58a6a5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 052/100] fix: CharsNotIn ignored the name given to it when
 reporting failures

---
 mo_parsing/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 885f19b..3f2d5d3 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -549,6 +549,8 @@ class CharsNotIn(Token):
         return "*", self.parser_config.regex.pattern
 
     def __str__(self):
+        if self.parser_name:
+            return self.parser_name
         return self.parser_config.regex.pattern
 
 
-- 
2.43.0


From 80dbe8a79f3c7a7115d492f0ca9fe02ad930ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 053/100] fix: names of what a Forward matched were lost

---
 mo_parsing/results.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 3277338..d864fc6 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -49,6 +49,7 @@ class ParseResults(object):
     def _get_item_by_name(self, name):
         # return open list of values for given name
         for tok in self.tokens:
+            tok = _forwarded(tok)
             if isinstance(tok, ParseResults):
                 if tok.name == name:
                     if isinstance(tok.type, Group):
@@ -204,6 +205,7 @@ class ParseResults(object):
     def items(self):
         output = {}
         for tok in self.tokens:
+            tok = _forwarded(tok)
             if isinstance(tok, ParseResults):
                 if isinstance(tok.type, Suppress):
                     continue
@@ -355,8 +357,15 @@ class ForwardResults(ParseResults):
         return self.tokens[0].type
 
     def __getitem__(self, item):
+        if is_text(item) and self._is_named():
+            return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
+    def _is_named(self):
+        # THE NAME OF WHAT MATCHED IS VISIBLE, UNLESS THESE RESULTS ARE THE CONTENTS OF A Group
+        inner = _forwarded(self.tokens[0])
+        return inner.name and not isinstance(inner.type, Group)
+
     def __setitem__(self, k, v):
         self.tokens[0][k] = v
 
@@ -370,13 +379,24 @@ class ForwardResults(ParseResults):
         yield from self.tokens[0]
 
     def items(self):
-        yield from self.tokens[0].items()
+        if self._is_named():
+            yield from ParseResults.items(self)
+        else:
+            yield from self.tokens[0].items()
+
+
+def _forwarded(token):
+    # A Forward WITHOUT A NAME STANDS FOR WHAT IT MATCHED
+    while isinstance(token, ForwardResults) and not token.name:
+        token = token.tokens[0]
+    return token
 
 
 def _flatten(token):
     """
     FLATTEN SOME, LEAVING ANY IMPORTANT FEATURES (names or groups)
     """
+    token = _forwarded(token)
     if not isinstance(token, ParseResults):
         yield token
     elif isinstance(token.type, Group):
-- 
2.43.0


From ca0fcb51ed219ca8d7446326ab1f9f4e5452fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 054/100] fix: a name gave the tokens of lookaheads inside it,
 and suppressed names were listed

---
 mo_parsing/results.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index d864fc6..1aa9109 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -52,11 +52,7 @@ class ParseResults(object):
             tok = _forwarded(tok)
             if isinstance(tok, ParseResults):
                 if tok.name == name:
-                    if isinstance(tok.type, Group):
-                        yield tok
-                    else:
-                        for t in tok.tokens:
-                            yield from _flatten(t)
+                    yield from _values(tok)
                     continue
                 elif tok.name:
                     continue
@@ -210,7 +206,8 @@ class ParseResults(object):
                 if isinstance(tok.type, Suppress):
                     continue
                 if tok.name:
-                    add(output, tok.name, [tok])
+                    if any(True for _ in _values(tok)):
+                        add(output, tok.name, [tok])
                     continue
                 if isinstance(tok.type, Group):
                     continue
@@ -392,6 +389,22 @@ def _forwarded(token):
     return token
 
 
+def _values(token):
+    """
+    THE VALUES FOUND UNDER THE NAME OF token
+    """
+    if isinstance(token.type, Group):
+        yield token
+        return
+    for t in token.tokens:
+        if isinstance(t, Annotation) and not t.name and len(token.tokens) == 1:
+            # NAME GIVEN TO THE LookAhead ITSELF
+            for tt in t.tokens:
+                yield from _flatten(tt)
+        else:
+            yield from _flatten(t)
+
+
 def _flatten(token):
     """
     FLATTEN SOME, LEAVING ANY IMPORTANT FEATURES (names or groups)
@@ -399,6 +412,10 @@ def _flatten(token):
     token = _forwarded(token)
     if not isinstance(token, ParseResults):
         yield token
+    elif isinstance(token, Annotation) and not token.name:
+        # LookAhead HAS NO TOKENS, ONLY NAMES
+        for name in token.keys():
+            yield Annotation(name, token.start, token.end, list(token._get_item_by_name(name)))
     elif isinstance(token.type, Group):
         yield token
     elif token.name:
-- 
2.43.0


From ce2abc36c9236e9de390c49220e4dff0c7725d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:25 +0000
Subject: [PATCH 055/100] fix: reversed() of results gave the inner structure,
 not the tokens

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 1aa9109..462ae9b 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -176,7 +176,7 @@ class ParseResults(object):
             self[key] = NO_RESULTS
 
     def __reversed__(self):
-        return reversed(self.tokens)
+        return reversed(list(self))
 
     def value(self):
         """
-- 
2.43.0


From b109def7029251f7d9311a19269cfe8062b9e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:37 +0000
Subject: [PATCH 056/100] fix: text of results was lost when asked for by a
 deep caller

---
 mo_parsing/results.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 462ae9b..48dcdfe 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -1,6 +1,4 @@
 # encoding: utf-8
-import inspect
-
 from mo_dots import is_many, is_null, register_data, register_list, exists
 from mo_future import is_text, text, zip_longest, MutableMapping
 from mo_imports import expect, export
@@ -263,14 +261,20 @@ class ParseResults(object):
         ]
 
     def __str__(self):
-        if len(inspect.stack(0)) > 30:
+        return self._text(0)
+
+    def _text(self, depth):
+        # depth IS OF THE RESULTS, THE CALLER CAN BE AS DEEP AS IT LIKES
+        if depth > 30:
             return "..."
-        elif not self.tokens:
+
+        values = [v._text(depth + 1) if isinstance(v, ParseResults) else text(v) for v in self.tokens]
+        if not values:
             return ""
-        elif len(self.tokens) == 1:
-            return text(self.tokens[0])
+        elif len(values) == 1:
+            return values[0]
         else:
-            return "[" + ", ".join(text(v) for v in self.tokens) + "]"
+            return "[" + ", ".join(values) + "]"
 
     def _asStringList(self):
         for t in self:
@@ -451,7 +455,7 @@ class Annotation(ParseResults):
             Log.error("expecting a list")
         ParseResults.__init__(self, Empty()(name), start, end, value, [])
 
-    def __str__(self):
+    def _text(self, depth):
         return "{" + text(self.name) + ": " + text(self.tokens) + "}"
 
     def __repr__(self):
-- 
2.43.0


From 987d95027068bcf75dda69a6627bde6ab35a5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 057/100] fix: list form, copy and sum of what a Forward
 matched had extra nesting

---
 mo_parsing/results.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 48dcdfe..f80f567 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -238,10 +238,13 @@ class ParseResults(object):
             Group(self.type + other.type),
             self.start,
             other.end,
-            self.tokens + other.tokens,
+            self._contents() + other._contents(),
             self.failures + other.failures,
         )
 
+    def _contents(self):
+        return self.tokens
+
     def __radd__(self, other):
         if not other:  # happens when using sum() on parsers
             return self
@@ -310,6 +313,8 @@ class ParseResults(object):
 
             if isinstance(obj, Annotation):
                 return []
+            elif isinstance(obj, ForwardResults):
+                return internal(obj.tokens[0], depth)
             elif isinstance(obj, ParseResults):
                 output = []
                 for t in obj.tokens:
@@ -333,8 +338,9 @@ class ParseResults(object):
         Returns a new copy of a `ParseResults` object.
         """
         ret = ParseResults(
-            self.type, self.start, self.end, list(self.tokens), self.failures
+            self._type, self.start, self.end, list(self.tokens), self.failures
         )
+        ret.__class__ = self.__class__
         return ret
 
     def get_name(self):
@@ -362,6 +368,10 @@ class ForwardResults(ParseResults):
             return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
+    def _contents(self):
+        inner = self.tokens[0]
+        return inner._contents() if isinstance(inner.type, Group) else self.tokens
+
     def _is_named(self):
         # THE NAME OF WHAT MATCHED IS VISIBLE, UNLESS THESE RESULTS ARE THE CONTENTS OF A Group
         inner = _forwarded(self.tokens[0])
-- 
2.43.0


From 1b418a7e91b6b6560f56bf6f7d230fd8b1257967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 058/100] fix: assigning to a name that has a value lost the
 name

---
 mo_parsing/results.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index f80f567..7cad54a 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -88,8 +88,17 @@ class ParseResults(object):
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
-                    self.tokens[i] = v
+                    if v is NO_RESULTS:
+                        self.tokens[i] = v
+                    else:
+                        # THE NEW VALUE KEEPS THE NAME, AND THE PLACE
+                        tokens = v.tokens if isinstance(v, ParseResults) else enlist(v)
+                        replacement = Annotation(k, tok.start, tok.end, tokens)
+                        if not isinstance(tok, Annotation):
+                            replacement.__class__ = ParseResults
+                        self.tokens[i] = replacement
                     v = NO_RESULTS  # ERASE ALL OTHERS
+                    continue
                 elif isinstance(tok.type, Group):
                     continue
                 elif tok.name:
-- 
2.43.0


From a8aaaa08696caeeca2d19fbdd69c7a3ec161ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 059/100] fix: copy of what a Forward matched shared its names

---
 mo_parsing/results.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 7cad54a..e1dfcf5 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -347,11 +347,14 @@ class ParseResults(object):
         Returns a new copy of a `ParseResults` object.
         """
         ret = ParseResults(
-            self._type, self.start, self.end, list(self.tokens), self.failures
+            self._type, self.start, self.end, self._copied(), self.failures
         )
         ret.__class__ = self.__class__
         return ret
 
+    def _copied(self):
+        return list(self.tokens)
+
     def get_name(self):
         r"""
         Returns the results name for this token expression. Useful when several
@@ -377,6 +380,9 @@ class ForwardResults(ParseResults):
             return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
+    def _copied(self):
+        return [t.__copy__() if isinstance(t, ParseResults) else t for t in self.tokens]
+
     def _contents(self):
         inner = self.tokens[0]
         return inner._contents() if isinstance(inner.type, Group) else self.tokens
-- 
2.43.0


From e66726bfa5bd27e79917b725b1c2df6471eb6396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 060/100] fix: changing results that hold the default of an
 option changed the option

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 3450f0d..01f852b 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -430,7 +430,7 @@ class Optional(Many):
             results = self.expr._parse(string, start, do_actions)
             return ParseResults(self, results.start, results.end, [results], results.failures)
         except ParseException as pe:
-            return ParseResults(self, start, start, self.parser_config.default_value, [pe])
+            return ParseResults(self, start, start, list(self.parser_config.default_value), [pe])
 
     def __str__(self):
         if self.parser_name:
-- 
2.43.0


From 1fdc5a7f6f4b5dccfaa72e54c0b3366a278e0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 061/100] fix: a condition that gave None or an empty list did
 not fail the match

---
 mo_parsing/core.py  |  7 +++----
 mo_parsing/utils.py | 45 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index dd1edbe..2745785 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -10,7 +10,7 @@ from mo_imports import export, expect
 from mo_parsing import whitespaces
 from mo_parsing.exceptions import ParseException
 from mo_parsing.results import ParseResults
-from mo_parsing.utils import Log, MAX_INT, wrap_parse_action, empty_tuple
+from mo_parsing.utils import Log, MAX_INT, wrap_condition, wrap_parse_action, empty_tuple
 
 (
     SkipTo,
@@ -416,8 +416,7 @@ class ParserElement(object):
 
         def make_cond(fn):
             def cond(token, index, string):
-                result = fn(token, index, string)
-                if not bool(result.tokens[0]):
+                if not fn(token, index, string):
                     error = ParseException(token.type, index, string, msg=message)
                     if fatal:
                         Log.error("fatal error", cause=error)
@@ -428,7 +427,7 @@ class ParserElement(object):
 
         output = self.copy()
         for fn in fns:
-            output.parse_action.append(make_cond(wrap_parse_action(fn)))
+            output.parse_action.append(make_cond(wrap_condition(fn)))
 
         output.set_config(
             callDuringTry=self.parser_config.callDuringTry or callDuringTry
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 5a46ba1..7866df2 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -315,7 +315,10 @@ def line(loc, string):
 "decorator to trim function calls to match the arity of the target"
 
 
-def wrap_parse_action(func):
+def trim_args(func):
+    """
+    :return: (function accepting token, index and string; func's name)
+    """
     if func in singleArgBuiltins:
         spec = inspect.getfullargspec(func)
     elif func.__class__.__name__ == "staticmethod":
@@ -340,10 +343,42 @@ def wrap_parse_action(func):
     else:
         num_args = len(spec.args)
 
+    # copy func name to wrapper for sensible debug output
+    try:
+        func_name = getattr(func, "__name__", getattr(func, "__class__").__name__)
+    except Exception:
+        func_name = str(func)
+
+    def trimmed(*args):
+        return func(*args[:num_args])
+
+    return trimmed, func_name
+
+
+def wrap_condition(func):
+    """
+    ANY FALSE VALUE IS A FAILED CONDITION
+    """
+    trimmed, func_name = trim_args(func)
+
     def wrapper(token, index, string):
         try:
-            args = token, index, string
-            result = func(*args[:num_args])
+            return bool(trimmed(token, index, string))
+        except ParseException as pe:
+            raise
+        except Exception as cause:
+            Log.error("condition {{name}} should not raise exception", name=func_name, cause=cause)
+
+    wrapper.__name__ = func_name
+    return wrapper
+
+
+def wrap_parse_action(func):
+    trimmed, func_name = trim_args(func)
+
+    def wrapper(token, index, string):
+        try:
+            result = trimmed(token, index, string)
             if result is None:
                 return token
             elif isinstance(result, ParseResults):
@@ -366,10 +401,6 @@ def wrap_parse_action(func):
             Log.error("parse action {{name}} should not raise exception", name=func_name, cause=cause)
 
     # copy func name to wrapper for sensible debug output
-    try:
-        func_name = getattr(func, "__name__", getattr(func, "__class__").__name__)
-    except Exception:
-        func_name = str(func)
     wrapper.__name__ = func_name
 
     return wrapper
-- 
2.43.0


From 1b26c6dd7529cffdf224e7cc9ff2c12e80bb3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 062/100] fix: a class with its own __call__ could not be a
 parse action

---
 mo_parsing/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 7866df2..be8949c 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -330,7 +330,6 @@ def trim_args(func):
         spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif isinstance(func, type):
         spec = inspect.getfullargspec(func.__init__)
-        func = func.__call__
     elif isinstance(func, FunctionType):
         spec = inspect.getfullargspec(func)
     elif hasattr(func, "__call__"):
-- 
2.43.0


From bdc5d5b87ae64dfde092feec6b8880f391b2db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 063/100] fix: builtins meant for a single argument got more,
 or were taken for constants

---
 mo_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index be8949c..d84a7b6 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -320,7 +320,7 @@ def trim_args(func):
     :return: (function accepting token, index and string; func's name)
     """
     if func in singleArgBuiltins:
-        spec = inspect.getfullargspec(func)
+        spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif func.__class__.__name__ == "staticmethod":
         func = func.__func__
         spec = inspect.getfullargspec(func)
-- 
2.43.0


From a9e5fe6733400492b4c2da38821ff550fd2e96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 064/100] fix: whitespace contexts of one thread leaked into
 grammars built by other threads

---
 mo_parsing/whitespaces.py | 59 ++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index c55f501..cc489aa 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -1,6 +1,7 @@
 # encoding: utf-8
 import re
 from collections import namedtuple
+from threading import local
 
 from mo_future import is_text
 from mo_imports import expect, Expecting
@@ -11,10 +12,28 @@ from mo_parsing.utils import Log, indent, quote, regex_range, alphanums, regex_i
 
 Literal, Token, Empty = expect("Literal", "Token", "Empty")
 
-CURRENT = None  # THE CURRENT DEFINED WHITESPACE
 NO_WHITESPACE = None  # NOTHING IS WHITESPACE ENGINE
 STANDARD_WHITESPACE = None  # SIMPLE WHITESPACE
-whitespace_stack = []
+in_use = []  # FROM use(), AND NOT RELEASED; THREADS START WITH THE LAST OF THESE
+
+
+class Context(local):
+    """
+    EACH THREAD BUILDS UNDER ITS OWN WHITESPACE
+    """
+
+    def __init__(self):
+        self.current = in_use[-1] if in_use else None
+        self.stack = []
+
+
+context = Context()
+
+
+def __getattr__(name):
+    if name == "CURRENT":  # THE CURRENT DEFINED WHITESPACE
+        return context.current
+    raise AttributeError(name)
 
 
 class Whitespace(ParserElement):
@@ -30,7 +49,6 @@ class Whitespace(ParserElement):
         self.regex = None
         self.expr = None
         self.parent = None
-        self.copies = []
         self._in_regex = False
         self.set_whitespace(white)
 
@@ -47,35 +65,32 @@ class Whitespace(ParserElement):
         output.regex = self.regex
         output.expr = self.expr
         output.parent = self
-        output.copies = []
         return output
 
     def __enter__(self):
-        global CURRENT
-
-        whitespace_stack.append(CURRENT)
-        CURRENT = new_whitespace = self.copy()
-        self.copies.append(new_whitespace)
+        new_whitespace = self.copy()
+        context.stack.append(context.current)
+        context.current = new_whitespace
         return new_whitespace
 
-    use = __enter__
+    def use(self):
+        """
+        LIKE __enter__, AND THREADS STARTED LATER WILL ALSO USE IT
+        """
+        new_whitespace = self.__enter__()
+        in_use.append(new_whitespace)
+        return new_whitespace
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         """
         REMOVE THIS WHITESPACE CONTEXT
         """
-        global CURRENT
-        if self.copies and self.copies[-1] is CURRENT:
-            self.copies.pop()
-            CURRENT = whitespace_stack.pop()
-            return
-
-        if self.parent:
-            self.parent.__exit__(exc_type, exc_val, exc_tb)
-            self.parent = None
-            return
-
-        Log.error("Released wrong whitespace")
+        current = context.current
+        if current is not self and current.parent is not self:
+            Log.error("Released wrong whitespace")
+
+        context.current = context.stack.pop()
+        in_use[:] = [w for w in in_use if w is not current]
 
     def release(self):
         self.__exit__(None, None, None)
-- 
2.43.0


From c87ce796a3d4c81646e246a5506c29f8ff4073a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 065/100] fix: a parse started inside an action reset the state
 of the parse around it; failed indented blocks popped the blocks around them

---
 mo_parsing/core.py    | 33 +++++++++++-----
 mo_parsing/helpers.py | 87 ++++++++++++++++++++++---------------------
 mo_parsing/regex.py   |  7 ++++
 3 files changed, 75 insertions(+), 52 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 2745785..01a61b8 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -61,7 +61,7 @@ _reset_actions = []
 def add_reset_action(action):
     """
     ADD A FUNCTION THAT WILL RESET GLOBAL STATE THAT A PARSER MAY USE
-    :param action:  CALLABLE
+    :param action:  CALLABLE, MAY RETURN A FUNCTION THAT BRINGS BACK THE PREVIOUS STATE
     """
     _reset_actions.append(action)
 
@@ -72,18 +72,33 @@ streamlined = {}
 
 def entrypoint(func):
     def output(*args, **kwargs):
-        with locker:
-            for a in _reset_actions:
-                try:
-                    a()
-                except Exception as e:
-                    Log.error("reset action failed", cause=e)
-
+        with locker, FreshState():
             return func(*args, **kwargs)
 
     return output
 
 
+class FreshState(object):
+    """
+    A PARSE STARTS WITH NEW STATE, AND PUTS BACK WHAT IT FOUND: IT MAY BE INSIDE ANOTHER PARSE
+    """
+
+    __slots__ = ["restore"]
+
+    def __enter__(self):
+        self.restore = []
+        for a in _reset_actions:
+            try:
+                self.restore.append(a())
+            except Exception as e:
+                Log.error("reset action failed", cause=e)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        for r in reversed(self.restore):
+            if r:
+                r()
+
+
 def _verify_whitespace(whi: List):
     if whi is None:
         return None
@@ -205,7 +220,7 @@ class Parser(object):
         matches = 0
         while end <= instrlen and matches < max_matches:
             try:
-                with locker:
+                with locker, FreshState():
                     start = self.whitespace.skip(string, end)
                     tokens = self.element._parse(string, start)
             except ParseException:
diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 4e9e0a1..d71dc05 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -665,12 +665,20 @@ def with_class(classname, namespace=""):
     return with_attribute(**{classattr: classname})
 
 
-_indent_stack = [(1, None, None)]
+_indent_stack = [1]  # COLUMN OF EACH ENCLOSING BLOCK
+_indent_attempts = []  # _indent_stack AT THE START OF EACH BLOCK BEING ATTEMPTED
 
 
 def reset_stack():
-    global _indent_stack
-    _indent_stack = [(1, None, None)]
+    global _indent_stack, _indent_attempts
+    previous = _indent_stack, _indent_attempts
+    _indent_stack, _indent_attempts = [1], []
+
+    def restore():
+        global _indent_stack, _indent_attempts
+        _indent_stack, _indent_attempts = previous
+
+    return restore
 
 
 add_reset_action(reset_stack)
@@ -693,55 +701,43 @@ def indented_block(blockStatementExpr, indent=True):
 
     A valid block must contain at least one ``blockStatement``.
     """
-    PEER = Forward()
-    DEDENT = Forward()
-
-    def _reset_stack(t=None, i=None, s=None, c=None):
-        old_col, old_peer, old_dedent = _indent_stack.pop()
-        PEER << old_peer
-        DEDENT << old_dedent
-
-    def peer_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col != expected_col:
-                if cur_col > expected_col:
-                    raise ParseException(t.type, l, s, "illegal nesting")
-                raise ParseException(t.type, l, s, "not a peer entry")
+    def start_block(t, l, s):
+        _indent_attempts.append(list(_indent_stack))
 
-        return output
+    def fail_block(t=None, i=None, s=None, c=None):
+        _indent_stack[:] = _indent_attempts.pop()
 
-    def dedent_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
+    def peer_stack(t, l, s):
+        if l >= len(s):
+            return
+        cur_col = col(l, s)
+        if cur_col != _indent_stack[-1]:
+            if cur_col > _indent_stack[-1]:
+                raise ParseException(t.type, l, s, "illegal nesting")
+            raise ParseException(t.type, l, s, "not a peer entry")
+
+    def dedent_stack(t, l, s):
+        if l < len(s):
             cur_col = col(l, s)
-            if cur_col not in (i for i, _, _ in _indent_stack):
+            if cur_col not in _indent_stack:
                 raise ParseException(t.type, l, s, "not an unindent")
-            if cur_col < _indent_stack[-1][0]:
-                old_col, old_peer, old_dedent = _indent_stack.pop()
-                PEER << old_peer
-                DEDENT << old_dedent
-
-        return output
+            if cur_col < _indent_stack[-1]:
+                _indent_stack.pop()
+        else:
+            _indent_stack.pop()
+        _indent_attempts.pop()
 
     def indent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col > _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
+        if cur_col > _indent_stack[-1]:
+            _indent_stack.append(cur_col)
         else:
             raise ParseException(t.type, l, s, "not a subentry")
 
     def nodent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col == _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
+        if cur_col == _indent_stack[-1]:
+            _indent_stack.append(cur_col)
         else:
             raise ParseException(t.type, l, s, "not a subentry")
 
@@ -752,22 +748,27 @@ def indented_block(blockStatementExpr, indent=True):
         NL = OneOrMore(LineEnd().suppress())
         INDENT = Empty() / indent_stack
         NODENT = Empty() / nodent_stack
+        START = Empty() / start_block
+        PEER = Empty() / peer_stack
+        DEDENT = Empty() / dedent_stack
 
         if indent:
             sm_expr = Group(
-                Optional(NL)
+                START
+                + Optional(NL)
                 + INDENT
                 + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
                 + DEDENT
             )
         else:
             sm_expr = Group(
-                Optional(NL)
+                START
+                + Optional(NL)
                 + NODENT
                 + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
                 + DEDENT
             )
-    return sm_expr.setFailAction(_reset_stack).set_parser_name("indented block")
+    return sm_expr.setFailAction(fail_block).set_parser_name("indented block")
 
 
 anyOpenTag, anyCloseTag = makeHTMLTags(
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 29c1a16..cdbf460 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -84,8 +84,15 @@ num_captures = 0
 
 def _reset():
     global num_captures
+    previous = num_captures
     num_captures = 0
 
+    def restore():
+        global num_captures
+        num_captures = previous
+
+    return restore
+
 
 add_reset_action(_reset)
 
-- 
2.43.0


From 8b8ce3a28b84eaaccbefaefa93389865c4d80b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 066/100] fix: counted_array() used the whitespace of the time
 of parsing

---
 mo_parsing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index d71dc05..87eb84d 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -191,10 +191,11 @@ def counted_array(expr, int_expr=None):
         int_expr = Word(nums) / (lambda t: int(t[0]))
 
     array_expr = Forward()
+    whitespace = whitespaces.CURRENT
 
     def countFieldParseAction(t, l, s):
         n = t[0]
-        array_expr << Group(Many(expr, exact=n, whitespace=whitespaces.CURRENT))
+        array_expr << Group(Many(expr, exact=n, whitespace=whitespace))
         return []
 
     int_expr = (
-- 
2.43.0


From 92c26ca637187f3390e54946f5cb52615d364760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 067/100] fix: SkipTo(include=True) ended where the match
 without actions ended

---
 mo_parsing/enhancement.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 01f852b..30e59fd 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -511,7 +511,7 @@ class SkipTo(ParseEnhancement):
                     except ParseException:
                         break
             try:
-                loc = self.expr._parse(string, loc, do_actions=False).end
+                self.expr._parse(string, loc, do_actions=False)
             except ParseException:
                 # no match, advance loc in string
                 loc += 1
@@ -523,7 +523,6 @@ class SkipTo(ParseEnhancement):
             raise ParseException(self, start, string) from None
 
         # build up return values
-        end = loc
         skiptext = string[start:skip_end]
         skip_result = []
         if skiptext:
@@ -532,7 +531,7 @@ class SkipTo(ParseEnhancement):
         if self.parser_config.include:
             end_result = self.expr._parse(string, before_end, do_actions)
             skip_result.append(end_result)
-            return ParseResults(self, start, end, skip_result, [])
+            return ParseResults(self, start, end_result.end, skip_result, [])
         else:
             return ParseResults(self, start, before_end, skip_result, [])
 
-- 
2.43.0


From 12f6f577341f836d7b955261c7afdf4ea21902d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 068/100] fix: originalTextFor() included the whitespace after
 the text, lost its own name, and failed on suppressed names

---
 mo_parsing/helpers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 87eb84d..626fb3f 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -362,10 +362,15 @@ def originalTextFor(expr, as_string=True):
 
 
 def extract_text(tokens, loc, string):
-    start, d, end = tokens
-    content = string[start:end]
-    annotations = [Annotation(k, v[0].start, v[-1].end, v) for k, v in d.items()]
-    return ParseResults(d.type, start, end, [content] + annotations, [])
+    start, d, _ = tokens
+    # THE END OF d, THE MARKER IS AFTER THE WHITESPACE
+    content = string[start:d.end]
+    annotations = [Annotation(k, start, d.end, list(v)) for k, v in d.items()]
+    result = ParseResults(d.type, start, tokens.end, [content] + annotations, [])
+    if tokens.name:
+        # KEEP THE NAME
+        return ParseResults(tokens.type, start, tokens.end, [result], [])
+    return result
 
 
 def ungroup(expr):
-- 
2.43.0


From 14e94fa6963eac875c70e9bf66480aa69ef3dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 069/100] fix: located_expr() gave the end after the whitespace

---
 mo_parsing/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 626fb3f..c1fe032 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -406,7 +406,13 @@ def located_expr(expr):
         [[18, 'lkkjj', 23]]
     """
     locator = Empty() / (lambda t, l, s: l)
-    return Group(locator("locn_start") + Group(expr)("value") + locator("locn_end"))
+
+    def set_end(tokens):
+        # THE LOCATOR IS AFTER THE WHITESPACE
+        tokens["locn_end"] = tokens["value"].end
+
+    located = locator("locn_start") + Group(expr)("value") + locator("locn_end")
+    return Group(located / set_end)
 
 
 def nested_expr(opener="(", closer=")", content=None, ignore_expr=quoted_string):
-- 
2.43.0


From 8f13c4c47e8803876971f026f9a474b08c9bac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 070/100] fix: the Profiler changed failures, the location
 given to actions, and hid interrupts

---
 mo_parsing/profile.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/profile.py b/mo_parsing/profile.py
index 8d867fc..a07e749 100644
--- a/mo_parsing/profile.py
+++ b/mo_parsing/profile.py
@@ -4,7 +4,7 @@ from json import dumps as value2json
 from mo_dots import to_data
 
 from mo_parsing.core import ParserElement
-from mo_parsing.utils import Log
+from mo_parsing.utils import Log, ParseException
 
 try:
     from jx_python import jx
@@ -58,25 +58,32 @@ timing = {}
 
 def _profile_parse(self, string, start, do_actions=True):
     all_start = process_time()
+    match = 2
     try:
         try:
             # preloc = self.whitespace.skip(string, start)
             preloc = start
             parse_start = process_time()
-            tokens = self.parse_impl(string, preloc, do_actions)
-            parse_end = process_time()
-            match = 1
-        except Exception as cause:
-            parse_end = process_time()
-            match = 2
+            try:
+                tokens = self.parse_impl(string, preloc, do_actions)
+                match = 1
+            finally:
+                parse_end = process_time()
+        except ParseException as cause:
             self.parser_config.fail_action and self.parser_config.fail_action(
                 self, start, string, cause
             )
-            raise
+            raise ParseException(self, start, string, cause=cause) from None
 
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             for fn in self.parse_action:
-                tokens = fn(tokens, start, string)
+                next_tokens = fn(tokens, tokens.start, string)
+                if next_tokens.end < tokens.end:
+                    Log.error(
+                        "parse action {{name}} not allowed to roll back the end of parsing",
+                        name=fn.__name__
+                    )
+                tokens = next_tokens
 
         return tokens
     finally:
-- 
2.43.0


From 291b16d3d673db2c7edba2a070613f34e0c799ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:34 +0000
Subject: [PATCH 071/100] fix: a Profiler used while another is in use erased
 the counts of the other

---
 mo_parsing/profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/profile.py b/mo_parsing/profile.py
index a07e749..8ace5dc 100644
--- a/mo_parsing/profile.py
+++ b/mo_parsing/profile.py
@@ -25,12 +25,16 @@ class Profiler(object):
         self.previous_parse = None
 
     def __enter__(self):
+        self.outer_timing = dict(timing)
         timing.clear()
         self.previous_parse = ParserElement._parse
         ParserElement._parse = _profile_parse
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         ParserElement._parse = self.previous_parse
+        collected = dict(timing)
+        timing.clear()
+        timing.update(self.outer_timing)
         profile = jx.sort(
             [
                 {
@@ -44,7 +48,7 @@ class Profiler(object):
                     "per_parse": parse / (match + fail),
                     "per_overhead": (all - parse) / (match + fail + cache),
                 }
-                for parser, (cache, match, fail, parse, all) in timing.items()
+                for parser, (cache, match, fail, parse, all) in collected.items()
             ],
             {"total_parse": "desc"},
         )
-- 
2.43.0


From 934dceca9344f6cf43de5e97a776a349a50b0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 072/100] fix: the Debugger let an action roll back the end of
 parsing, and gave the last stack depth as the maximum

---
 mo_parsing/debug.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index 69653f5..85be637 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -5,6 +5,7 @@ from mo_future import text
 
 from mo_parsing.core import ParserElement
 from mo_parsing.utils import (
+    Log,
     quote,
     lineno,
     col,
@@ -46,7 +47,7 @@ def _debug_parse(debugger):
         loc = start
         try:
             debugger.parse_count += 1
-            debugger.max_stack_depth = stackdepth()
+            debugger.max_stack_depth = max(debugger.max_stack_depth, stackdepth())
             tokens = self.parse_impl(string, loc, do_actions)
         except ParseException as cause:
             self.parser_config.fail_action and self.parser_config.fail_action(
@@ -59,7 +60,13 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, tokens.start, string)
+                    next_tokens = fn(tokens, tokens.start, string)
+                    if next_tokens.end < tokens.end:
+                        Log.error(
+                            "parse action {{name}} not allowed to roll back the end of parsing",
+                            name=fn.__name__
+                        )
+                    tokens = next_tokens
             except Exception as cause:
                 if not debugger.silent:
                     fail(self, start, string, cause)
-- 
2.43.0


From b2f0b64fb64c3361d3dcb0b53192966ef3134e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 073/100] fix: one_of(as_keyword=True) did not prefer the
 longest word

---
 mo_parsing/infix.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index dbdaa76..133539c 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -88,22 +88,21 @@ def one_of(strs, caseless=False, as_keyword=False):
     if not symbols:
         return NoMatch()
 
-    if not as_keyword:
-        # if not producing keywords, need to reorder to take care to avoid masking
-        # longer choices with shorter ones
-        i = 0
-        while i < len(symbols) - 1:
-            cur = symbols[i]
-            for j, other in enumerate(symbols[i + 1 :]):
-                if isequal(other, cur):
-                    del symbols[i + j + 1]
-                    break
-                elif masks(cur, other):
-                    del symbols[i + j + 1]
-                    symbols.insert(i, other)
-                    break
-            else:
-                i += 1
+    # need to reorder to take care to avoid masking
+    # longer choices with shorter ones
+    i = 0
+    while i < len(symbols) - 1:
+        cur = symbols[i]
+        for j, other in enumerate(symbols[i + 1 :]):
+            if isequal(other, cur):
+                del symbols[i + j + 1]
+                break
+            elif masks(cur, other):
+                del symbols[i + j + 1]
+                symbols.insert(i, other)
+                break
+        else:
+            i += 1
 
     if caseless or as_keyword:
         return MatchFirst(parseElementClass(sym) for sym in symbols).streamline()
-- 
2.43.0


From 78654ce37bb5351a17e10a2613be588bef2a1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 074/100] fix: replace_with() failed on all but constant text

---
 mo_parsing/core.py  | 4 ++--
 mo_parsing/regex.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 01a61b8..a1a8d16 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -558,9 +558,9 @@ class ParserElement(object):
 
         def replacer(tokens):
             acc = []
-            for s, n in zip(parts, parts[1:]):
+            for s, n in zip(parts[::2], parts[1::2]):
                 acc.append(s)
-                acc.append(text(tokens[n]))
+                acc.append(text(tokens[n[0]]))
             acc.append(parts[-1])
             return "".join(acc)
 
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index cdbf460..acdae0b 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -270,7 +270,7 @@ regex << (
 regex = regex.finalize()
 
 parameters = (
-    "\\" + Char(alphanums)("name") | "\\g<" + Word(alphas, alphanums)("name") + ">"
+    "\\g<" + Word(alphanums + "_")("name") + ">" | "\\" + Char(alphanums)("name")
 ) / (lambda t: t["name"])
 NO_WHITESPACE.release()
 
-- 
2.43.0


From a22d49334814673ca3cd957c8dad6eae0fbf9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 075/100] fix: ungroup() kept the group of many tokens

---
 mo_parsing/helpers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index c1fe032..1098ba2 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -377,7 +377,15 @@ def ungroup(expr):
     """Helper to undo mo_parsing's default grouping of And expressions,
     even if all but one are non-empty.
     """
-    return TokenConverter(expr) / (lambda t: t[0])
+
+    def unwrap(t):
+        first = t[0]
+        if isinstance(first, ParseResults):
+            # THE CONTENT WITHOUT THE GROUP
+            return ParseResults(t.type, t.start, t.end, first.tokens, [])
+        return first
+
+    return TokenConverter(expr) / unwrap
 
 
 def located_expr(expr):
-- 
2.43.0


From e676d8447e7773433a165afa0404be7e60ba2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:37 +0000
Subject: [PATCH 076/100] fix: Combine() of plain text raised AttributeError

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 30e59fd..b578d76 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -743,7 +743,7 @@ class Combine(TokenConverter):
     Config = append_config(TokenConverter, "separator")
 
     def __init__(self, expr, separator=""):
-        super(Combine, self).__init__(expr.streamline())
+        super(Combine, self).__init__(whitespaces.CURRENT.normalize(expr).streamline())
         self.set_config(separator=separator)
 
     def parse_impl(self, string, start, do_actions=True):
-- 
2.43.0


From f929949745f09cec0fc6a3d10114e1507701850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:07 +0000
Subject: [PATCH 077/100] fix: items of commaSeparatedList lost their spaces

---
 mo_parsing/helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 1098ba2..6310404 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -825,9 +825,11 @@ with NO_WHITESPACE:
 
     pythonStyleComment = Regex(r"#[^\n]*").set_parser_name("Python style comment")
 
-_commasepitem = Combine(OneOrMore(
-    Word(printables, exclude=",") + Optional(Word(" \t") + ~Literal(",") + ~LineEnd())
-)).set_parser_name("comma_item") / (lambda t: text(t).strip())
+with NO_WHITESPACE:
+    # SPACES ARE PART OF THE ITEM
+    _commasepitem = Combine(OneOrMore(
+        Word(printables, exclude=",") + Optional(Word(" \t") + ~Literal(",") + ~LineEnd())
+    )).set_parser_name("comma_item") / (lambda t: text(t).strip())
 commaSeparatedList = delimited_list(Optional(
     quoted_string | _commasepitem, default=""
 )).set_parser_name("commaSeparatedList")
-- 
2.43.0


From 89428f6d05e5e6037b17dc2314ec75aa9cae0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:50 +0000
Subject: [PATCH 078/100] fix: matchPreviousLiteral(), matchPreviousExpr(),
 matchOnlyAtCol() and replaceHTMLEntity() did nothing or failed

---
 mo_parsing/helpers.py | 50 +++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 6310404..a6a7fee 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -42,6 +42,7 @@ from mo_parsing.utils import (
     nums,
     printables,
     Log,
+    wrap_parse_action,
 )
 from mo_parsing.whitespaces import Whitespace, STANDARD_WHITESPACE, NO_WHITESPACE
 
@@ -216,6 +217,12 @@ def _flatten(L):
     return ret
 
 
+def _watch(expr, action):
+    # expr MUST BE THE ONE USED IN THE GRAMMAR, NOT A COPY
+    expr.parse_action.append(wrap_parse_action(action))
+    expr.set_config(callDuringTry=True)
+
+
 def matchPreviousLiteral(expr):
     """
     Helper to define an expression that is indirectly defined from
@@ -234,18 +241,17 @@ def matchPreviousLiteral(expr):
     """
     rep = Forward()
 
+    whitespace = whitespaces.CURRENT
+
     def copyTokenToRepeater(t, l, s):
-        if t:
-            if len(t) == 1:
-                rep << t[0]
-            else:
-                # flatten t tokens
-                tflat = _flatten(t)
-                rep << And(Literal(tt) for tt in tflat)
+        # flatten t tokens
+        tflat = _flatten(t.as_list())
+        if tflat:
+            rep << And([Literal(text(tt)) for tt in tflat], whitespace)
         else:
             rep << Empty()
 
-    expr.add_parse_action(copyTokenToRepeater, callDuringTry=True)
+    _watch(expr, copyTokenToRepeater)
     rep.set_parser_name("(prev) " + text(expr))
     return rep
 
@@ -265,21 +271,19 @@ def matchPreviousExpr(expr):
     compared, so ``"1"`` is compared with ``"10"``. Do *not* use
     with packrat parsing enabled.
     """
-    rep = Forward()
-    e2 = expr.copy()
-    rep <<= e2
+    match_tokens = []
 
-    def copyTokenToRepeater(t, l, s):
-        match_tokens = _flatten(t)
+    def mustMatchTheseTokens(t, l, s):
+        if _flatten(t.as_list()) != match_tokens:
+            raise ParseException(t.type, l, s, "does not match the previous tokens")
 
-        def mustMatchTheseTokens(t, l, s):
-            these_tokens = _flatten(t)
-            if these_tokens != match_tokens:
-                raise ParseException("", 0, "")
+    rep = Forward()
+    rep <<= expr.add_parse_action(mustMatchTheseTokens, callDuringTry=True)
 
-        rep.add_parse_action(mustMatchTheseTokens, callDuringTry=True)
+    def copyTokenToRepeater(t, l, s):
+        match_tokens[:] = _flatten(t.as_list())
 
-    expr.add_parse_action(copyTokenToRepeater, callDuringTry=True)
+    _watch(expr, copyTokenToRepeater)
     rep.set_parser_name("(prev) " + text(expr))
     return rep
 
@@ -518,9 +522,9 @@ def matchOnlyAtCol(n):
     a specific column in the input text.
     """
 
-    def verify_col(strg, locn, toks):
-        if col(locn, strg) != n:
-            raise ParseException(strg, locn, "matched token not at column %d" % n)
+    def verify_col(t, l, s):
+        if col(l, s) != n:
+            raise ParseException(t.type, l, s, "matched token not at column %d" % n)
 
     return verify_col
 
@@ -802,7 +806,7 @@ commonHTMLEntity = Regex(
 
 def replaceHTMLEntity(t):
     """Helper parser action to replace common HTML entities with their special characters"""
-    return _htmlEntityMap.get(t.entity)
+    return _htmlEntityMap.get(t[0][1:-1])
 
 
 # it's easy to get these comment structures wrong - they're very common, so may as well make them available
-- 
2.43.0


From b3bda4683cfe1b8a9c715f17a7460391987094dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:33 +0000
Subject: [PATCH 079/100] fix: an indented block that ends at its own column
 kept its column

---
 mo_parsing/helpers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index a6a7fee..8d5cc74 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -745,10 +745,8 @@ def indented_block(blockStatementExpr, indent=True):
             cur_col = col(l, s)
             if cur_col not in _indent_stack:
                 raise ParseException(t.type, l, s, "not an unindent")
-            if cur_col < _indent_stack[-1]:
-                _indent_stack.pop()
-        else:
-            _indent_stack.pop()
+        # THE BLOCK IS DONE, EVEN IF WHAT FOLLOWS IS AT THE SAME COLUMN
+        _indent_stack.pop()
         _indent_attempts.pop()
 
     def indent_stack(t, l, s):
-- 
2.43.0


From 8abdd050bd5bc27d6e318beaf3c6bf101486973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 080/100] fix: originalTextFor() and located_expr() included
 the whitespace after what ends with one of them

---
 mo_parsing/helpers.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 8d5cc74..b24d7a6 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -358,16 +358,13 @@ def originalTextFor(expr, as_string=True):
         ['<i>text</i>']
     """
     loc_marker = Empty() / (lambda _, l: l)
-    match_expr = (
-        loc_marker("_original_start") + Group(expr) + loc_marker("_original_end")
-    )
+    match_expr = loc_marker("_original_start") + Group(expr)
     match_expr = match_expr / extract_text
     return match_expr
 
 
 def extract_text(tokens, loc, string):
-    start, d, _ = tokens
-    # THE END OF d, THE MARKER IS AFTER THE WHITESPACE
+    start, d = tokens
     content = string[start:d.end]
     annotations = [Annotation(k, start, d.end, list(v)) for k, v in d.items()]
     result = ParseResults(d.type, start, tokens.end, [content] + annotations, [])
@@ -418,13 +415,15 @@ def located_expr(expr):
         [[18, 'lkkjj', 23]]
     """
     locator = Empty() / (lambda t, l, s: l)
+    end_locator = locator("locn_end")
 
-    def set_end(tokens):
-        # THE LOCATOR IS AFTER THE WHITESPACE
-        tokens["locn_end"] = tokens["value"].end
+    def add_end(t):
+        # ANOTHER LOCATOR WOULD BE AFTER THE WHITESPACE
+        locn_end = ParseResults(end_locator, t.end, t.end, [t.end], [])
+        return ParseResults(t.type, t.start, t.end, t.tokens + [locn_end], t.failures)
 
-    located = locator("locn_start") + Group(expr)("value") + locator("locn_end")
-    return Group(located / set_end)
+    located = locator("locn_start") + Group(expr)("value")
+    return Group(located / add_end)
 
 
 def nested_expr(opener="(", closer=")", content=None, ignore_expr=quoted_string):
-- 
2.43.0


From e28a4bb1b4a1b551a4b35cb978ab265c476fb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 081/100] fix: nested_expr() with long delimiters failed when
 there is no whitespace

---
 mo_parsing/tokens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 3f2d5d3..562a749 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -507,7 +507,9 @@ class CharsNotIn(Token):
             min = exact
             max = exact
 
-        if len(not_chars) == 1:
+        if not not_chars:
+            regex = r"[\s\S]"
+        elif len(not_chars) == 1:
             regex = "[^" + regex_range(not_chars) + "]"
         else:
             regex = "[^" + regex_range(not_chars)[1:]
-- 
2.43.0


From 90dd0b1ad004ca2e503b4da2283a0eedd48cdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:28 +0000
Subject: [PATCH 082/100] fix: suppress() of originalTextFor() left an empty
 group

---
 mo_parsing/enhancement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index b578d76..9d93cdf 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -873,7 +873,11 @@ class Suppress(TokenConverter):
 
 
 def _suppress_post_parse(tokens, start, string):
-    return ParseResults(tokens.type, tokens.start, tokens.end, [], tokens.failures)
+    type_ = tokens.type
+    while isinstance(type_, Group):
+        # NOTHING REMAINS, NOT EVEN AN EMPTY GROUP
+        type_ = type_.expr
+    return ParseResults(type_, tokens.start, tokens.end, [], tokens.failures)
 
 
 class PrecededBy(LookAhead):
-- 
2.43.0


From ecada5589c8aeeb1cc056ecfbf84374a4bfe4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:46 +0000
Subject: [PATCH 083/100] fix: defining a Forward with a Forward lost its name
 and actions, or failed if not defined yet

---
 mo_parsing/enhancement.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 9d93cdf..36c551f 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -571,6 +571,7 @@ class Forward(ParserElement):
         "_in_regex",
         "_in_expecting",
         "__in_whitespace",
+        "_is_copy",
     ]
 
     def __init__(self, expr=Null):
@@ -582,6 +583,7 @@ class Forward(ParserElement):
         self._in_regex = None  # avoid recursion
         self._in_expecting = None  # avoid recursion
         self.__in_whitespace = False
+        self._is_copy = False
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
 
@@ -592,6 +594,7 @@ class Forward(ParserElement):
         output._in_regex = None
         output._in_expecting = None
         output.__in_whitespace = False
+        output._is_copy = True
 
         output.used_by = []
         return output
@@ -605,11 +608,14 @@ class Forward(ParserElement):
 
     def __lshift__(self, other):
         self._str = ""
-        if is_forward(self.expr):
+        if self._is_copy:
             return self.expr << other
 
-        while is_forward(other):
+        # KEEP WHAT HAS A NAME OR ACTIONS OF ITS OWN, OR IS YET TO BE DEFINED
+        while is_forward(other) and other.expr and not other.is_annotated():
             other = other.expr
+        if other is self:
+            raise RecursiveGrammarException((self,))
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
         self.check_recursion()
@@ -631,6 +637,7 @@ class Forward(ParserElement):
         with whitespaces.NO_WHITESPACE:
             output = self.copy()
             output.expr = self.expr.leave_whitespace()
+            output._is_copy = False
             return output
 
     def streamline(self):
-- 
2.43.0


From 59f4a3a456b7a8780867889c9dcbb106cf9c29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:18 +0000
Subject: [PATCH 084/100] fix: sound recursive grammars were refused, and left
 recursion in MatchAll or SkipTo was not

---
 mo_parsing/core.py        |  5 ++--
 mo_parsing/enhancement.py | 48 +++++++++++++++++++++++++++++++++------
 mo_parsing/expressions.py | 46 ++++++++++++++++++++++++++++++++++---
 mo_parsing/tokens.py      |  7 +++---
 mo_parsing/utils.py       |  4 ++++
 5 files changed, 95 insertions(+), 15 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index a1a8d16..5208a61 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -10,7 +10,7 @@ from mo_imports import export, expect
 from mo_parsing import whitespaces
 from mo_parsing.exceptions import ParseException
 from mo_parsing.results import ParseResults
-from mo_parsing.utils import Log, MAX_INT, wrap_condition, wrap_parse_action, empty_tuple
+from mo_parsing.utils import Log, MAX_INT, UNSETTLED, wrap_condition, wrap_parse_action, empty_tuple
 
 (
     SkipTo,
@@ -476,8 +476,9 @@ class ParserElement(object):
     def min_length(self):
         if self.min_length_cache >= 0:
             return self.min_length_cache
+        unsettled = UNSETTLED[0]
         min_ = self._min_length()
-        if self.streamlined:
+        if self.streamlined and (min_ or unsettled == UNSETTLED[0]):
             self.min_length_cache = min_
         return min_
 
diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 36c551f..b271ab8 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -18,7 +18,7 @@ from mo_parsing.utils import (
     regex_compile,
     wrap_parse_action,
 )
-from mo_parsing.utils import MAX_INT, is_forward
+from mo_parsing.utils import MAX_INT, UNSETTLED, is_forward
 
 Word: object
 (Token, NoMatch, Literal, Keyword, Word, CharsNotIn, StringEnd, Empty, Char,) = expect(
@@ -471,8 +471,17 @@ class SkipTo(ParseEnhancement):
         return {}
 
     def min_length(self):
+        if self.parser_config.include:
+            return self.expr.min_length()
         return 0
 
+    def check_recursion(self, seen=empty_tuple):
+        ParseEnhancement.check_recursion(self, seen)
+        # LOOKED FOR AT THE START TOO
+        for e in (self.parser_config.fail, self.parser_config.ignore):
+            if e:
+                e.check_recursion(seen + (self,))
+
     def __regex__(self):
         prec, pattern = self.expr.__regex__()
         pattern = regex_iso(prec, pattern, "+")
@@ -572,6 +581,7 @@ class Forward(ParserElement):
         "_in_expecting",
         "__in_whitespace",
         "_is_copy",
+        "_waiting",
     ]
 
     def __init__(self, expr=Null):
@@ -584,6 +594,7 @@ class Forward(ParserElement):
         self._in_expecting = None  # avoid recursion
         self.__in_whitespace = False
         self._is_copy = False
+        self._waiting = []
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
 
@@ -595,6 +606,7 @@ class Forward(ParserElement):
         output._in_expecting = None
         output.__in_whitespace = False
         output._is_copy = True
+        output._waiting = []
 
         output.used_by = []
         return output
@@ -618,9 +630,30 @@ class Forward(ParserElement):
             raise RecursiveGrammarException((self,))
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
+        self.min_length_cache = -1
+        self.settle()
         self.check_recursion()
+        waiting, self._waiting = self._waiting, []
+        for w in waiting:
+            w.check_recursion()
         return self
 
+    def settle(self):
+        """
+        RETURN True IF THE MINIMUM LENGTH IS NOW KNOWN TO BE MORE THAN ZERO
+        """
+        if self.min_length_cache > 0 or not self.expr:
+            return False
+        self.min_length_cache = self.expr.min_length()
+        return self.min_length_cache > 0
+
+    def check_later(self, root):
+        """
+        self IS NOT DEFINED, root CAN ONLY BE CHECKED WHEN IT IS
+        """
+        if all(root is not w for w in self._waiting):
+            self._waiting.append(root)
+
     def add_parse_action(self, action):
         """
         Add one or more parse actions to expression's list of parse actions. See `setParseAction`.
@@ -638,6 +671,7 @@ class Forward(ParserElement):
             output = self.copy()
             output.expr = self.expr.leave_whitespace()
             output._is_copy = False
+            output.settle()
             return output
 
     def streamline(self):
@@ -666,12 +700,12 @@ class Forward(ParserElement):
             self._in_expecting = False
 
     def min_length(self):
-        if self.min_length_cache == -1 and self.expr:
-            self.min_length_cache = 0  # BREAK CYCLE
-            try:
-                return self.expr.min_length()
-            finally:
-                self.min_length_cache = -1
+        if self.min_length_cache > 0:
+            return self.min_length_cache
+        if self._is_copy:
+            return self.expr.min_length()
+        # MAY BE MORE, WHEN ALL Forwards ARE DEFINED
+        UNSETTLED[0] += 1
         return 0
 
     @property
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 28b02ac..3c7487a 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -26,6 +26,40 @@ from mo_parsing.utils import (
 from mo_parsing.whitespaces import Whitespace
 
 
+def _forwards(expr):
+    """
+    RETURN ALL THE Forwards THAT CAN BE REACHED FROM expr
+    """
+    output, done, todo = [], set(), [expr]
+    while todo:
+        e = todo.pop()
+        if not isinstance(e, ParserElement) or id(e) in done:
+            continue
+        done.add(id(e))
+        if is_forward(e):
+            output.append(e)
+        todo.append(getattr(e, "expr", None))
+        todo.extend(getattr(e, "exprs", empty_tuple))
+    return output
+
+
+def _may_consume(expr, root):
+    """
+    RETURN False IF expr, WITH UNKNOWN MINIMUM LENGTH, CAN MATCH NOTHING. WHEN IT IS MADE OF Forwards
+    YET TO BE DEFINED THEN root IS CHECKED AGAIN WHEN THEY ARE
+    """
+    forwards = _forwards(expr)
+    # SMALLEST SOLUTION TO MUTUALLY RECURSIVE LENGTHS
+    while any([f.settle() for f in forwards]):
+        pass
+    if expr.min_length():
+        return True
+    incomplete = [f for f in forwards if not f.expr]
+    for f in incomplete:
+        f.check_later(root)
+    return bool(incomplete)
+
+
 class ParseExpression(ParserElement):
     """Abstract subclass of ParserElement, for combining and
     post-processing parsed tokens.
@@ -298,7 +332,7 @@ class And(ParseExpression):
         subRecCheckList = seen + (self,)
         for e in self.exprs:
             e.check_recursion(subRecCheckList)
-            if e.min_length():
+            if e.min_length() or _may_consume(e, subRecCheckList[0]):
                 return
 
     def reverse(self):
@@ -715,8 +749,14 @@ class MatchAll(ParseExpression):
         return output
 
     def _min_length(self):
-        # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
-        return min(e.min_length() for e in self.exprs)
+        # EVERY MEMBER THAT CAN NOT MATCH NOTHING IS REQUIRED
+        return sum(e.min_length() for e in self.exprs)
+
+    def check_recursion(self, seen=empty_tuple):
+        # ANY MEMBER MAY BE FIRST
+        seen_more = seen + (self,)
+        for e in self.exprs:
+            e.check_recursion(seen_more)
 
     @property
     def whitespace(self):
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 562a749..15209cc 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -335,10 +335,11 @@ class CloseMatch(Token):
 
         raise ParseException(self, start, string)
 
+    def min_length(self):
+        return len(self.parser_config.match)
+
     def reverse(self):
-        return CloseMatch(self.parser_config.match[
-            ::-1, self.parser_config.max_mismatches
-        ])
+        return CloseMatch(self.parser_config.match[::-1], self.parser_config.max_mismatches)
 
 
 class Word(Token):
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index d84a7b6..8426619 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -237,6 +237,10 @@ singleArgTypes = [
 builtin_lookup = {"".join.__name__: ("iterable",)}
 
 
+# COUNT WHEN min_length() IS ASKED OF A Forward WITH NO KNOWN LENGTH
+UNSETTLED = [0]
+
+
 def is_forward(expr):
     return expr.__class__.__name__ == "Forward"
 
-- 
2.43.0


From 9023d6ac74e140aa67104915f68c44abbba6cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:19 +0000
Subject: [PATCH 085/100] fix: recursion behind White was refused

---
 mo_parsing/tokens.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 15209cc..d29d30c 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -625,6 +625,9 @@ class White(Token):
             self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
+    def min_length(self):
+        return max(1, self.parser_config.min_len)
+
     def reverse(self):
         return self
 
-- 
2.43.0


From 0d6fb6cf18811b594ecc193c9a741dcbbceba44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 086/100] fix: ipv6_address accepted whitespace and too many
 groups

---
 mo_parsing/helpers.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index b24d7a6..7a76a4c 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -871,24 +871,27 @@ ipv4_address = Regex(
     r"(25[0-5]|2[0-4][0-9]|1?[0-9]{1,2})(\.(25[0-5]|2[0-4][0-9]|1?[0-9]{1,2})){3}"
 ).set_parser_name("IPv4 address")
 
-_ipv6_part = Regex(r"[0-9a-fA-F]{1,4}").set_parser_name("hex_integer")
-_full_ipv6_address = (
-    _ipv6_part + (":" + _ipv6_part) * 7
-).set_parser_name("full IPv6 address")
-_short_ipv6_address = (
-    Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-    + "::"
-    + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-).set_parser_name("short IPv6 address")
-_short_ipv6_address.add_condition(lambda t: sum(
-    1 for tt in t if _ipv6_part.matches(tt)
-) < 8)
-_mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
-ipv6_address = Combine(
-    (
-        _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
+with NO_WHITESPACE:
+    # WHITESPACE IS NOT PART OF AN ADDRESS
+    _ipv6_part = Regex(r"[0-9a-fA-F]{1,4}").set_parser_name("hex_integer")
+    _full_ipv6_address = (
+        _ipv6_part + (":" + _ipv6_part) * 7
+    ).set_parser_name("full IPv6 address")
+    _short_ipv6_address = (
+        (
+            Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
+            + "::"
+            + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
+        )
+        .set_parser_name("short IPv6 address")
+        .add_condition(lambda t: sum(1 for tt in t if _ipv6_part.matches(tt)) < 8)
+    )
+    _mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
+    ipv6_address = Combine(
+        (
+            _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
+        ).set_parser_name("IPv6 address")
     ).set_parser_name("IPv6 address")
-).set_parser_name("IPv6 address")
 "IPv6 address (long, short, or mixed form)"
 
 mac_address = (
-- 
2.43.0


From 48bea953d9e030691ff0b724deec0f4332d1e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:48 +0000
Subject: [PATCH 087/100] fix: with_attribute() refused attributes with empty
 value, or without value

---
 mo_parsing/helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 7a76a4c..33803a0 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -625,9 +625,19 @@ def with_attribute(**attr):
     :return:  Raise an exception if there is no match
     """
 
+    def names(tokens):
+        # ATTRIBUTES MAY HAVE NO VALUE, OR AN EMPTY ONE
+        for tok in tokens.tokens:
+            if isinstance(tok, ParseResults):
+                if tok.name:
+                    yield tok.name
+                elif not isinstance(tok.type, Group):
+                    yield from names(tok)
+
     def pa(tokens, loc, string):
+        found = set(names(tokens))
         for name, expected_value in attr.items():
-            if name not in tokens:
+            if name not in found and name not in tokens:
                 raise ParseException(
                     tokens.type, loc, string, f"is expecting {name} attribute"
                 )
-- 
2.43.0


From 87d7f8a307c548a53f4dc14d886bf301040cd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 088/100] fix: SkipTo() failed when its ignore expression is
 given as text

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index b271ab8..3b8fbcb 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -461,7 +461,7 @@ class SkipTo(ParseEnhancement):
         self.set_config(
             include=include,
             fail=whitespaces.CURRENT.normalize(fail_on),
-            ignore=ignore,
+            ignore=whitespaces.CURRENT.normalize(ignore),
             whitespace=engine_ or whitespaces.CURRENT,
         )
         self.parser_name = str(self)
-- 
2.43.0


From c94da4bf16327cfaa832ff3208faac235eda0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:00 +0000
Subject: [PATCH 089/100] fix: any order of elements refused a repetition with
 a minimum of more than one, and exceeded its maximum

---
 mo_parsing/expressions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 3c7487a..7b0ffa7 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -779,8 +779,12 @@ class MatchAll(ParseExpression):
                     loc = result.end
                     if loc == end:
                         continue
+                    # A REPETITION MATCHES MANY AT ONCE
+                    c2 = c + (len(result.tokens) if isinstance(e, Many) and not e.parse_action else 1)
+                    if c2 > ma:
+                        continue
                     end = self.parser_config.whitespace.skip(string, loc)
-                    c2 = count[i] = c + 1
+                    count[i] = c2
                     if c2 >= ma:
                         del todo[i]
                         del count[i]
@@ -793,7 +797,7 @@ class MatchAll(ParseExpression):
                 break
 
         for c, (e, mi, ma) in zip(count, todo):
-            if c < mi:
+            if mi and not c:  # A REPETITION ENSURES ITS OWN MINIMUM
                 raise ParseException(
                     self,
                     start,
-- 
2.43.0


From 983c5372c8770dd7a2cc0d041e0b42d367e5ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:20 +0000
Subject: [PATCH 090/100] fix: And([a, ..., b + c]) skipped to the last element
 of the sequence, not to the sequence

---
 mo_parsing/expressions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 7b0ffa7..94c8175 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -182,8 +182,7 @@ class And(ParseExpression):
             for i, expr in enumerate(exprs):
                 if expr is Ellipsis:
                     if i < len(exprs) - 1:
-                        skipto_arg = (Empty() + exprs[i + 1]).exprs[-1]
-                        tmp.append(SkipTo(skipto_arg)("_skipped"))
+                        tmp.append(SkipTo(exprs[i + 1])("_skipped"))
                     else:
                         raise Exception(
                             "cannot construct And with sequence ending in ..."
-- 
2.43.0


From f03ae0819b96320fcbe4e3cbd4bc55e6bf2d7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 091/100] fix: PrecededBy() looked back further than the given
 retreat

---
 mo_parsing/enhancement.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 3b8fbcb..5b91d25 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -946,11 +946,12 @@ class PrecededBy(LookAhead):
 
     zero_length = True
     __slots__ = []
-    Config = append_config(ParseEnhancement, "retreat", "exact")
+    Config = append_config(ParseEnhancement, "retreat", "exact", "max_retreat")
 
     def __init__(self, expr, retreat=None):
         super(PrecededBy, self).__init__(expr)
         expr = self.expr
+        self.set_config(max_retreat=retreat)
 
         if isinstance(expr, (Literal, Keyword, Char)):
             self.set_config(retreat=expr.min_length(), exact=True)
@@ -977,7 +978,10 @@ class PrecededBy(LookAhead):
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
-            for offset in range(self.parser_config.retreat, start + 1):
+            max_retreat = self.parser_config.max_retreat
+            if max_retreat is None or max_retreat > start:
+                max_retreat = start
+            for offset in range(self.parser_config.retreat, max_retreat + 1):
                 try:
                     ret = test_expr._parse(instring_slice, start - offset)
                     break
-- 
2.43.0


From 5702981f4e681906424b2ff7915b9772724201c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:26 +0000
Subject: [PATCH 092/100] fix: PrecededBy() used the whitespace in force when
 parsing, and accepted text which ended before the position

---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 5b91d25..528cbb1 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -974,7 +974,6 @@ class PrecededBy(LookAhead):
             ret = self.expr._parse(string, loc)
         else:
             # retreat specified a maximum lookbehind window, iterate
-            test_expr = self.expr + StringEnd()
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
@@ -983,8 +982,9 @@ class PrecededBy(LookAhead):
                 max_retreat = start
             for offset in range(self.parser_config.retreat, max_retreat + 1):
                 try:
-                    ret = test_expr._parse(instring_slice, start - offset)
-                    break
+                    ret = self.expr._parse(instring_slice, start - offset)
+                    if ret.end == start:
+                        break
                 except ParseException as cause:
                     last_cause = cause
             else:
-- 
2.43.0


From ad344099aa04d20d5040ccb82c0a382847be61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:06 +0000
Subject: [PATCH 093/100] fix: failure of PrecededBy() was about the text
 before the position, not about the text parsed

---
 mo_parsing/enhancement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 528cbb1..e742bfd 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -975,7 +975,6 @@ class PrecededBy(LookAhead):
         else:
             # retreat specified a maximum lookbehind window, iterate
             instring_slice = string[:start]
-            last_cause = ParseException(self, start, string)
 
             max_retreat = self.parser_config.max_retreat
             if max_retreat is None or max_retreat > start:
@@ -985,10 +984,11 @@ class PrecededBy(LookAhead):
                     ret = self.expr._parse(instring_slice, start - offset)
                     if ret.end == start:
                         break
-                except ParseException as cause:
-                    last_cause = cause
+                except ParseException:
+                    # ABOUT THE SLICE, NOT ABOUT string
+                    pass
             else:
-                raise last_cause
+                raise ParseException(self, start, string)
         # return empty list of tokens, but preserve any defined results names
 
         ret.__class__ = Annotation
-- 
2.43.0


From 6d9c3a6b4eef5384e8fc5e4de175914902304801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:11 +0000
Subject: [PATCH 094/100] fix: alternatives starting with characters of unusual
 case (like a Kelvin sign, or sharp s) were not found

---
 mo_parsing/expressions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 94c8175..314654a 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -613,6 +613,14 @@ def _distinct(a, b):
     return ii
 
 
+def _simple_case(c):
+    """
+    RETURN True IF c, AND ITS UPPER CASE, CAN BE FOUND GIVEN ITS LOWER CASE
+    """
+    lower, upper = c.lower(), c.upper()
+    return len(lower) == len(upper) == 1 and upper.lower() == lower and c in (lower, lower.upper())
+
+
 class Fast(ParserElement):
     __slots__ = ["lookup", "regex", "all_keys"]
 
@@ -623,6 +631,8 @@ class Fast(ParserElement):
         lookup = OrderedDict()
         for i, m in enumerate(maps):
             for k, ee in m.items():
+                if not all(_simple_case(c) for c in k):
+                    Log.error("can not look up the lower case")
                 k = k.lower()
                 all_keys.add(k)
                 lookup.setdefault(k, []).extend((i, e) for e in ee)
-- 
2.43.0


From 471d675750a6a99bc951e100474b7725f49018c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:10 +0000
Subject: [PATCH 095/100] fix: alternatives of one character with unusual case
 (like a Kelvin sign) were not found

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index d29d30c..d768d93 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -136,7 +136,7 @@ class Literal(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -220,7 +220,7 @@ class Keyword(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
-- 
2.43.0


From d22aa1162534085d1b7aac80f5b69567a8f09447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:43 +0000
Subject: [PATCH 096/100] fix: a group after a lookahead's group was dropped
 from Regex.capture_groups()

---
 mo_parsing/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index acdae0b..729f80c 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -323,7 +323,7 @@ class Regex(ParseEnhancement):
                 g = string[s:e]
                 if pe <= s:
                     ann.append(g)
-                pe = max(pe, e)
+                    pe = e
                 ann.append(Annotation(text(i), s, e, [g]))
                 n = lookup.get(i)
                 if n:
-- 
2.43.0


From 13f3b269b310a05608cbe3b303eae80d4301bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:50 +0000
Subject: [PATCH 097/100] fix: conditions and actions on Empty were dropped
 below enhancements, and ~Empty with a condition never matched

---
 mo_parsing/enhancement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index e742bfd..772d0ba 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -76,7 +76,7 @@ class ParseEnhancement(ParserElement):
             self.streamlined = True
             return self
 
-        if not expr or isinstance(expr, Empty) and not self.is_annotated():
+        if not expr or isinstance(expr, Empty) and not self.is_annotated() and not expr.is_annotated():
             return Empty()
 
         output = self.copy()
@@ -184,7 +184,7 @@ class NotAny(LookAhead):
             return NoMatch()
         if isinstance(output.expr, NoMatch):
             return Empty()
-        if isinstance(output.expr, Empty):
+        if isinstance(output.expr, Empty) and not output.expr.parse_action:
             return NoMatch()
         return output
 
-- 
2.43.0


From 86abe6b18ebdebe6d3c7a8fccecd45172097cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:19 +0000
Subject: [PATCH 098/100] fix: results were equal to longer lists which end
 with None

---
 mo_parsing/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index e1dfcf5..078640b 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -1,6 +1,6 @@
 # encoding: utf-8
 from mo_dots import is_many, is_null, register_data, register_list, exists
-from mo_future import is_text, text, zip_longest, MutableMapping
+from mo_future import is_text, text, MutableMapping
 from mo_imports import expect, export
 from mo_parsing.exceptions import sort_causes
 
@@ -130,7 +130,8 @@ class ParseResults(object):
             except Exception as e:
                 return False
         elif is_many(other):
-            return all(s == o for s, o in zip_longest(self, other))
+            mine, theirs = list(self), list(other)
+            return len(mine) == len(theirs) and all(s == o for s, o in zip(mine, theirs))
         elif self.length() == 1:
             return self[0] == other
         elif not self:
-- 
2.43.0


From 084dec2d99d0e1d3cb3c846425ebbba7d3fda3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 099/100] fix: get_name() of a result with one plain token
 raised AttributeError

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 078640b..89753fc 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -364,7 +364,7 @@ class ParseResults(object):
         if self.name:
             return self.name
         elif len(self.tokens) == 1:
-            return self.tokens[0].name
+            return getattr(self.tokens[0], "name", "")
         else:
             return ""
 
-- 
2.43.0


From b06218672ecacab63d4e56ad28de83dcaf4fbc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:14 +0000
Subject: [PATCH 100/100] fix: parse actions whose bound argument is not named
 self or cls were called with too few or too many arguments

---
 mo_parsing/utils.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 8426619..d1451e3 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -9,7 +9,6 @@ import sys
 import warnings
 from collections import namedtuple
 from math import isnan
-from types import FunctionType
 
 from mo_dots import is_null, Null, is_many
 from mo_future import unichr, text, generator_types, get_function_name
@@ -323,28 +322,26 @@ def trim_args(func):
     """
     :return: (function accepting token, index and string; func's name)
     """
-    if func in singleArgBuiltins:
-        spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
-    elif func.__class__.__name__ == "staticmethod":
-        func = func.__func__
-        spec = inspect.getfullargspec(func)
-    elif func.__class__.__name__ == "builtin_function_or_method":
-        spec = inspect.getfullargspec(func)
-    elif func in singleArgTypes:
-        spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
-    elif isinstance(func, type):
-        spec = inspect.getfullargspec(func.__init__)
-    elif isinstance(func, FunctionType):
-        spec = inspect.getfullargspec(func)
-    elif hasattr(func, "__call__"):
-        spec = inspect.getfullargspec(func)
-
-    if spec.varargs:
-        num_args = 3
-    elif spec.args and spec.args[0] in ["cls", "self"]:
-        num_args = len(spec.args) - 1
+    if func in singleArgBuiltins or func in singleArgTypes:
+        num_args = 1
     else:
-        num_args = len(spec.args)
+        if isinstance(func, staticmethod):
+            func = func.__func__
+        # DOES NOT INCLUDE WHAT IS BOUND, WHATEVER ITS NAME
+        try:
+            kinds = [p.kind for p in inspect.signature(func, follow_wrapped=False).parameters.values()]
+        except ValueError:
+            if not isinstance(func, type):
+                raise
+            kinds = [inspect.Parameter.POSITIONAL_ONLY]  # A SUBCLASS OF singleArgTypes
+        if inspect.Parameter.VAR_POSITIONAL in kinds:
+            num_args = 3
+        else:
+            num_args = sum(
+                1
+                for k in kinds
+                if k in (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD)
+            )
 
     # copy func name to wrapper for sensible debug output
     try:
-- 
2.43.0

