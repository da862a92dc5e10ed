From 896f3f208375bc7ef17c5f63d96b895b10895815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:17 +0000
Subject: [PATCH 01/11] fix: handle backslash in piece length and pattern
 string parsing

A URL containing a backslash got a too large literal length, and the
pattern generated from it ([\\]) was rejected with "Missing ']'".
---
 src/os_urlpattern/parse_utils.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..e2256c1 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
-                elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                elif c == Symbols.BACKSLASH:  # skip the escaped char
+                    length += -1
+                    idx += 1
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
@@ -650,14 +649,13 @@ def parse_pattern_string(pattern_string):
                 last_rule = None
 
             idx_s = idx
-            while True:
-                idx = pattern_string.find(Symbols.BRACKETS_R, idx + 1)
-                if idx < 0:
-                    raise InvalidPatternException(
-                        "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
-                    continue
-                break
+            idx += 1
+            while idx < l and pattern_string[idx] != Symbols.BRACKETS_R:
+                # skip the escaped char
+                idx += 2 if pattern_string[idx] == Symbols.BACKSLASH else 1
+            if idx >= l:
+                raise InvalidPatternException(
+                    "Missing '%s'" % Symbols.BRACKETS_R)
             if idx + 1 < l:
                 if pattern_string[idx + 1] == Symbols.BRACES_L:
                     old_idx = idx + 2
-- 
2.43.0


From dc382bad946439b95192248c83490e8bed266eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 02/11] fix: match generated patterns with mixed literal or
 last dot parts

Patterns such as /[0-9a-z]{3}[\.]mp3, /aB1[\-][A-Za-z]{2},
/[\-a-z]+[\.] and /[a-z][\.][0-9a-z]{3} are generated from clusters,
but never matched the URLs they were generated from: the literal units
were not combined as the MixedView does, and the view type deduced from
the pattern was not the one which generated it.
---
 src/os_urlpattern/parsed_piece_view.py | 26 +++++++++++++++++++++++---
 src/os_urlpattern/pattern_matcher.py   |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..9ee6fde 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,8 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import (DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET,
+                         BasePatternRule)
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -138,6 +139,26 @@ class FuzzyView(ParsedPieceView):
         return self._parsed_pieces
 
 
+def _is_last_dot_split(head, tail):
+    """Whether the pattern units around the dot are LastDotSplitFuzzyView type.
+
+    Args:
+        head (PatternUnit): The unit before the dot.
+        tail (sequence of PatternUnit): The units after the dot.
+
+    Returns:
+        bool: True if the URL piece should be splited at the last dot.
+    """
+    if len(tail) > 2 or any(u.rules - DIGIT_AND_ASCII_RULE_SET for u in tail):
+        return False
+    # MixedView can split the piece into the same parts, and it does not
+    # limit the complexity of the part after the dot.
+    mixable = len(head.rules) == 1 or not head.rules - MIXED_RULE_SET
+    if len(tail) == 1 and len(tail[0].rules) == 1:
+        return True
+    return not mixable and all(u.is_literal() for u in tail)
+
+
 def view_cls_from_pattern(pattern, is_last_path=False):
     """Get ParsedPieceView class from pattern.
 
@@ -169,11 +190,10 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
                 and len(pattern_units[1].rules) == 1 \
                 and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
+                and _is_last_dot_split(pattern_units[0], pattern_units[2:]):
             view_cls = LastDotSplitFuzzyView
 
     return view_cls
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..440cfbe 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,8 +156,8 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From a4d04985a6a32a4962378a675a2d2a70be238043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 03/11] fix: -c option of pattern-make on python3.12

ConfigParser.readfp was removed in python3.12, pattern-make always
crashed when a config file was specified.
---
 src/os_urlpattern/cmdline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..30150a1 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -91,7 +91,10 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            config = self._config
+            # readfp was removed since python3.12
+            read_file = getattr(config, 'read_file', None) or config.readfp
+            read_file(args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
-- 
2.43.0


From 7c60656be482249ab11db87f763cb168d8a8a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 04/11] fix: reject invalid chars in query keys

Query keys with an illegal char were accepted and the char was turned
into the bogus rule [None], so different keys became the same key and
the generated pattern matched none of the URLs.
---
 src/os_urlpattern/parse_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index e2256c1..db58056 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -100,6 +100,9 @@ def normalize(raw_string, reserved_chars=None):
         reserved_chars ([type], optional): Defaults to None. Reserved chars
             which are not to be normalized.
 
+    Raises:
+        InvalidCharException: Invalid char in the string.
+
     Returns:
         str: The normalized string.
 
@@ -114,6 +117,8 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT:
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From 34e18c6088c3b77443ba0c1b7692ab05d195034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 05/11] fix: keep all fixed-length patterns of the same length

Of several loaded patterns with the same length and rules, written in
different order([a-z0-9]{3} and [0-9a-z]{3}), only the last one could be
matched.
---
 src/os_urlpattern/pattern_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 440cfbe..a30231e 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -92,7 +92,7 @@ class LengthPatternViewMatcher(ViewMatcher):
 
     def add_match_node(self, match_node):
         length = match_node.pattern.pattern_units[0].num
-        self._matchers[length] = [match_node]
+        self._matchers.setdefault(length, []).append(match_node)
 
     def match(self, parsed_piece):
         return [] if parsed_piece.piece_length not in self._matchers \
-- 
2.43.0


From d118f7d2b78672b47991b817ce47fa586b0e0fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 06/11] fix: reject empty rule in pattern

[]+ is not a valid regex, but it was accepted and matched empty pieces.
---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index db58056..0bb9331 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -748,6 +748,8 @@ def parse_pattern_unit_string(pattern_unit_string):
                 raise InvalidPatternException("Invalid rule %r" % rule)
             rules.add(rule)
             idx += n
+    if not rules:
+        raise InvalidPatternException('Missing rule')
     if (num > 0 and len(rules) > num) or num == 0:
         raise InvalidPatternException('Insufficient number')
     return rules, num
-- 
2.43.0


From 20cc9e4fa206327b5b86930b74f5303f9c3c248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:09 +0000
Subject: [PATCH 07/11] fix: reject patterns passed to PatternMatcher.match

---
 src/os_urlpattern/pattern_matcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index a30231e..50a52c6 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -5,7 +5,8 @@ from __future__ import unicode_literals
 from functools import total_ordering
 
 from .definition import BasePatternRule
-from .parse_utils import MIXED_RULE_SET, PieceParser, fuzzy_join
+from .parse_utils import (MIXED_RULE_SET, ParsedPiece, PieceParser,
+                          fuzzy_join)
 from .parsed_piece_view import (FuzzyView, LastDotSplitFuzzyView, LengthView,
                                 MixedView, MultiView, PieceView,
                                 view_cls_from_pattern)
@@ -305,6 +306,8 @@ class PatternMatcher(object):
               Bound meta data can be accessed with node.meta.
         """
         url_meta, parsed_pieces = parse(url)
+        if not isinstance(parsed_pieces[0], ParsedPiece):
+            raise ValueError('Invalid URL')
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid in self._matchers:
             return self._matchers[sid].match(parsed_pieces)
-- 
2.43.0


From f8c0f9c01fcaa516b0c5d56a13c9e0d8765deb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:12 +0000
Subject: [PATCH 08/11] fix: refuse pattern counts written with non-ASCII
 digits

---
 src/os_urlpattern/parse_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 0bb9331..3ee373a 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -9,7 +9,7 @@ from collections import namedtuple
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
                          DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
-                         EMPTY_TUPLE, MIXED_RULE_SET,
+                         DIGIT_SET, EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -725,7 +725,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or not DIGIT_SET.issuperset(num_str):
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From 9ec40a55a93867043801a4ccb10079ff058e8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 09/11] fix: refuse URLs with TAB, CR or LF instead of dropping
 the characters

---
 src/os_urlpattern/parse_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 3ee373a..b07d03d 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -168,7 +168,13 @@ def parse_url(url):
 
     Returns:
         ParseResult: A 6-tuple, (scheme, netloc, path, params, query, fragment).
+
+    Raises:
+        InvalidCharException: Invalid char in the URL.
     """
+    for c in '\t\r\n':  # newer urlparse drops these silently
+        if c in url:
+            raise InvalidCharException("Invalid char %r" % c)
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
         if url[-1] != Symbols.NUMBER:
-- 
2.43.0


From 81be3a7e9f53ac7061081a7ead0a530d8203d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:38 +0000
Subject: [PATCH 10/11] fix: no division by zero in speed logging when the
 clock did not advance

---
 src/os_urlpattern/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index b72accc..a3fe5c2 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -208,7 +208,9 @@ class LogSpeedAdapter(logging.LoggerAdapter):
             getattr(self.logger, name)(msg, *args, **kwargs)
 
     def _speed(self):
-        return self._count / (time.time() - self._start_time)
+        elapsed = time.time() - self._start_time
+        # the clock may be coarse or be set back
+        return self._count / elapsed if elapsed > 0 else 0.0
 
     def __enter__(self):
         self._start_time = time.time()
-- 
2.43.0


From e03038af48348ccb33d742e523d5df068e338ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:38 +0000
Subject: [PATCH 11/11] fix: a URL refused for its unhashable meta is not
 loaded

---
 src/os_urlpattern/pattern_maker.py      | 1 +
 src/os_urlpattern/piece_pattern_node.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/os_urlpattern/pattern_maker.py b/src/os_urlpattern/pattern_maker.py
index 55b771f..0f55f8c 100644
--- a/src/os_urlpattern/pattern_maker.py
+++ b/src/os_urlpattern/pattern_maker.py
@@ -41,6 +41,7 @@ class PatternMaker(object):
         url_meta, parsed_pieces = parse(url)
         if not isinstance(parsed_pieces[0], ParsedPiece):
             raise ValueError('Invalid URL')
+        hash(meta)  # refuse unhashable meta before a sub maker is added
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid not in self._makers:
             self._makers[sid] = Maker(url_meta, self._config)
diff --git a/src/os_urlpattern/piece_pattern_node.py b/src/os_urlpattern/piece_pattern_node.py
index 305c347..d093f55 100644
--- a/src/os_urlpattern/piece_pattern_node.py
+++ b/src/os_urlpattern/piece_pattern_node.py
@@ -78,6 +78,7 @@ def build_from_parsed_pieces(root, parsed_pieces, count=1, meta=None, uniq=True)
     Returns:
         tuple: 2-tuple, (leaf_node, is_new)
     """
+    hash(meta)  # refuse unhashable meta before the tree is changed
     node, is_new = build_tree(root, [(parsed_piece.piece, (parsed_piece, None))
                                      for parsed_piece in parsed_pieces], count)
     if uniq and not is_new:
-- 
2.43.0

