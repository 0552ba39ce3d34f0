From e75b2f3e5542969254df84b8373808a739c43859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:03 +0000
Subject: [PATCH 01/37] fix: don't index lowercase dictionary words letter by
 letter

The lowercase index expects a list of lowercase spellings. Lowercase words
were passed as a plain string, so each of their letters was indexed as an
alias of the whole word: with 'cat' in the dictionary, 'C' was accepted.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From 2b9a80db87c18e135e58be7a68337dc1dd02fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:07 +0000
Subject: [PATCH 02/37] fix: crash on words which can't be lowercased with
 CHECKSHARPS

Lowercasing an empty word or a word starting with a dotted capital I gives
no variants, but the German casing always took the first one.
---
 spylls/hunspell/algo/capitalization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..be71988 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -200,12 +200,12 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        result = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
 
-        return [lowered]
+        return result
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From c185e50ef4846debe26912e16d2685a401c0e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:10 +0000
Subject: [PATCH 03/37] fix: crash when suggested phrase is longer than
 mixed-case misspelling

The letter after the space in the suggestion was compared to the letter of
the misspelling in the same position even if there is no such letter.
---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..3ee5756 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -220,7 +220,8 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    if pos + 1 < len(text) and pos < len(word) and \
+                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
                         text = text[:pos+1] + word[pos] + text[pos+2:]
 
             # If the word is forbidden, nothing more to do
-- 
2.43.0


From 2902f251ce6d7351668c67b91b7a5ca78a0899c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:14 +0000
Subject: [PATCH 04/37] fix: edit suggestions exceeded their limit by one

MAXSUGGESTIONS and MAXCPDSUGS are maximums, but one more suggestion was
produced before stopping (so even MAXCPDSUGS 0 produced one).
---
 spylls/hunspell/algo/suggest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 3ee5756..94d8098 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -390,6 +390,9 @@ class Suggest:
 
         count = 0
 
+        if limit <= 0:
+            return
+
         for suggestion in filter_suggestions(self.edits(word)):
             # Then, for each of those correct suggestions,
             # we run them through handle_found (which performs some final transformations and
@@ -399,7 +402,7 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
+                if count >= limit:
                     return
 
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
-- 
2.43.0


From 56de6bcb6f4c1a23dc61b2f2de65b4ab5586a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:16 +0000
Subject: [PATCH 05/37] fix: compounds could have one part more than
 COMPOUNDWORDMAX

---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..7c34878 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -778,7 +778,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -860,7 +860,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From 577dffb317ad263cd50f88820882bca3c3739153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:19 +0000
Subject: [PATCH 06/37] fix: word break points with one letter between them

The pattern consumed the letters around the break point, so the next break
point in 'a-b-c' was never found.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..dec6c56 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -109,7 +109,7 @@ class BreakPattern:
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
-            self.regexp = re.compile(f".({pattern}).")
+            self.regexp = re.compile(f"(?<=.)({pattern})(?=.)")
 
 
 @dataclass
-- 
2.43.0


From ae591a4f765f644e5ebe174feb4b8614ba2b1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:23 +0000
Subject: [PATCH 07/37] fix: forbidden words were accepted when capitalized or
 inside broken word

FORBIDDENWORD was checked only for the whole word exactly as it was passed,
so for forbidden 'foo' its other spellings 'Foo', 'FOO' or 'bar-foo' were
considered correct, and 'Foo' or 'foo bar' were suggested.
---
 spylls/hunspell/algo/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 7c34878..a742f1c 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -377,6 +377,9 @@ class Lookup:
 
         # Just a shortcut to call (quite complicated) form validity method with all relevant params.
         def is_good_form(form, **kwarg):
+            # Dictionary entry marked as forbidden can't make any form correct
+            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
+                return False
             return self.is_good_form(form, compoundpos=compoundpos,
                                      captype=captype,
                                      allow_nosuggest=allow_nosuggest,
-- 
2.43.0


From cc03784c24bb2ea05d740a04049e0a7b502708a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:26 +0000
Subject: [PATCH 08/37] fix: compounds by rules ignored FORBIDDENWORD and
 NOSUGGEST flags

---
 spylls/hunspell/algo/lookup.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index a742f1c..87b0cdb 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -825,7 +825,7 @@ class Lookup:
                            word_rest: str,
                            prev_parts: List[data.dic.Word] = [],
                            rules: Optional[List[data.aff.CompoundRule]] = None,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:  # pylint: disable=unused-argument
+                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
         """
         Different way of producing compound words: by rules, looking like ``A*BC?CD``, where A, B, C, D
         are flags the word might have, and ``*?`` have the same meaning as in regular expressions.
@@ -851,12 +851,17 @@ class Lookup:
             # We start with all known rules
             rules = self.aff.COMPOUNDRULE
 
-        # FIXME: ignores flags like FORBIDDENWORD and nosuggest
+        def is_good_part(word):
+            if aff.FORBIDDENWORD and aff.FORBIDDENWORD in word.flags:
+                return False
+            return allow_nosuggest or not aff.NOSUGGEST or aff.NOSUGGEST not in word.flags
 
         # If it is middle of compounding process "the rest of the word is the whole last part" is always
         # possible
         if prev_parts:
             for homonym in self.dic.homonyms(word_rest):
+                if not is_good_part(homonym):
+                    continue
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 if any(r.fullmatch(flag_sets) for r in rules):
@@ -869,11 +874,14 @@ class Lookup:
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
             beg = word_rest[0:pos]
             for homonym in self.dic.homonyms(beg):
+                if not is_good_part(homonym):
+                    continue
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                 if compoundrules:
-                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts):
+                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
+                                                        allow_nosuggest=allow_nosuggest):
                         yield CompoundForm([AffixForm(beg, beg), *rest.parts])
 
     def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
-- 
2.43.0


From 58566cb881eb186f157e5a534d830bf6bfb2794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:29 +0000
Subject: [PATCH 09/37] fix: same dash-containing word might be suggested twice

Suggestions for a part of the word with dashes weren't remembered, so the
n-gram search could suggest them again. They also were checked without
considering NOSUGGEST flag.
---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 94d8098..1796366 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -335,7 +335,8 @@ class Suggest:
                         # are ambiguities how to split: if we are fixing "quas-Afro-American"->"quasi-Afro-American",
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
-                        if self.lookup(candidate):
+                        if candidate not in handled and self.lookup(candidate, allow_nosuggest=False):
+                            handled.add(candidate)
                             yield Suggestion(candidate, 'dashes')
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
-- 
2.43.0


From 505bf619aeb0fc480c9acf56354cee0c7342be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:32 +0000
Subject: [PATCH 10/37] fix: treat ICONV and OCONV patterns literally

Characters having special meaning in regular expressions (like dots) were
matching anything.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index dec6c56..c6b3abf 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -425,7 +425,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From 8117ee81951b400dae438bd70bd208ff20fe06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:36 +0000
Subject: [PATCH 11/37] fix: affixes with special characters

Affix text was used as a regular expression, so affixes containing '.', '+'
or parentheses were stripped wrongly or failed to load.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c6b3abf..05e1481 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -234,7 +234,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -253,7 +253,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From 58b222b7377bc8cf831752e1c9dd792282413d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:39 +0000
Subject: [PATCH 12/37] fix: treat REP patterns literally

Only '^' and '$' have a special meaning in them, other regular expression
special characters were matching wrong text or failed to load.
---
 spylls/hunspell/data/aff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 05e1481..65ae5dc 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,8 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        # special chars should be escaped, but ^ and $ should be treated as in regexps
+        self.regexp = re.compile(re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$'))
 
 
 @dataclass
-- 
2.43.0


From 4a258ed544c2886946d0fcab03d72c5ae00e22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:43 +0000
Subject: [PATCH 13/37] fix: ignore byte order mark of .dic file

It was recognized only when the file is read in the default encoding, but
.dic file is read in the encoding specified by .aff.
---
 spylls/hunspell/readers/file_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..a22a421 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -44,8 +44,11 @@ class BaseReader:
         ln = self.io.readline()
         while ln != '':
             self.line_no += 1
-            if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
-                ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1:
+                # The mark looks differently depending on whether the file is already read as UTF-8
+                for bom in ("\xef\xbb\xbf", "\ufeff"):
+                    if ln.startswith(bom):
+                        ln = ln[len(bom):]
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From d313e5b8fe28690cbdf58ab3ae0ba8a756abd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:46 +0000
Subject: [PATCH 14/37] fix: don't treat singular numeric flag as an alias of
 flag set

With AF table defined before it, 'NEEDAFFIX 2' meant some arbitrary flag
of the second flag set instead of flag 2.
---
 spylls/hunspell/readers/aff.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..2a74a4b 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -57,7 +57,7 @@ class Context:
         """
         Parse singular flag, considering attr:`flag_format`.
         """
-        return list(self.parse_flags(string))[0]
+        return list(self.split_flags(string))[0]
 
     def parse_flags(self, string: str) -> Iterable[str]:
         """
@@ -70,6 +70,13 @@ class Context:
         if self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
+        return self.split_flags(string)
+
+    def split_flags(self, string: str) -> Iterable[str]:
+        """
+        Split string of flags, considering attr:`flag_format` but not aliases.
+        """
+
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
         if self.flag_format == 'short':
             return string
-- 
2.43.0


From 1f1221e2413d4cbcd335d455e98266f44d35b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:50 +0000
Subject: [PATCH 15/37] fix: keep order of data tags in AM aliases

The tags were stored in a set, so the order in which alternative spellings
are tried on suggest was different for each run.
---
 spylls/hunspell/data/aff.py    | 2 +-
 spylls/hunspell/readers/aff.py | 2 +-
 spylls/hunspell/readers/dic.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 65ae5dc..8b2be59 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1110,7 +1110,7 @@ class Aff:
     #: Table of word data aliases. Logic of aliasing is the same as for :attr:`AM`.
     #:
     #: *Usage:* :meth:`read_dic <spylls.hunspell.readers.dic.read_dic>`
-    AM: Dict[str, Set[str]] = field(default_factory=dict)
+    AM: Dict[str, List[str]] = field(default_factory=dict)
 
     # **Other**
 
diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 2a74a4b..7f48e24 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -269,7 +269,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         }
     if directive == 'AM':
         return {
-            str(i + 1): {*ln}
+            str(i + 1): ln
             for i, ln in enumerate(_read_array())
         }
     if directive == 'COMPOUNDSYLLABLE':
diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..1396178 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
 import re
 
-from typing import List, Dict, Set, Optional
+from typing import List, Dict, Optional
 
 from spylls.hunspell.data import dic
 from spylls.hunspell.data.aff import Aff, RepPattern
@@ -124,7 +124,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
     return result
 
 
-def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
+def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]:
     """
     Parse data tags after stem.
     There can be *anything* in this part of the data, but parsed and processed are:
-- 
2.43.0


From 72d242067fbf90027e4b44cd15435f5ef7d4a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:53 +0000
Subject: [PATCH 16/37] fix: affix can't be allowed by its own flags

An affix which might be followed by another one of the same kind (like
'SFX A 0 x/A .') was considered compatible with any stem.
---
 spylls/hunspell/algo/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 87b0cdb..772ec10 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -693,12 +693,12 @@ class Lookup:
                 return False
 
         # Prefix might be allowed by: a) stem having this flag or b) suffix having this flag
-        # (all flags are made from suffix+prefix+stem flags)
-        if form.prefix and form.prefix.flag not in all_flags:
+        if form.prefix and form.prefix.flag not in root_flags and \
+                not (form.suffix and form.prefix.flag in form.suffix.flags):
             return False
         # Suffix might be allowed by: a) stem having this flag or b) prefix having this flag
-        # (all flags are made from suffix+prefix+stem flags)
-        if form.suffix and form.suffix.flag not in all_flags:
+        if form.suffix and form.suffix.flag not in root_flags and \
+                not (form.prefix and form.suffix.flag in form.prefix.flags):
             return False
 
         # CIRCUMFIX flag, if present, used to mark suffix and prefix that should go together: if
-- 
2.43.0


From 8a58c43ff30d2eb371796677f1d7084161220ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:56 +0000
Subject: [PATCH 17/37] fix: second prefix was lost from forms which also have
 suffixes

This allowed to skip checks related to it.
---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 772ec10..7810c3f 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -536,7 +536,7 @@ class Lookup:
                 # AND suffix split out
                 if suffix_allowed and form.prefix and form.prefix.crossproduct:
                     yield from (
-                        form2.replace(text=form.text, prefix=form.prefix)
+                        form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
                                                    required_flags=suffix_flags,
                                                    forbidden_flags=forbidden_flags,
-- 
2.43.0


From c487fe2aed5d899cdef285cb753b0ff8840b2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:59 +0000
Subject: [PATCH 18/37] fix: compound rules with special characters or numeric
 flags

Flags which are special in regular expressions (like '.' or '+') matched
wrongly or failed to load. Numeric flags were glued together, so rule
(1)(1)(11) matched words with flags 11, 1, 1 and even just 11, 11.
---
 spylls/hunspell/data/aff.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8b2be59..aab2f6c 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -310,14 +310,13 @@ class CompoundRule:
         # TODO: proper flag parsing! Long is (aa)(bb)*(cc), numeric is (1001)(1002)*(1003)
         # This works but is super ad-hoc!
         if '(' in self.text:
-            self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            tokens = re.findall(r'\(([^*?]+?)\)([*?]?)', self.text)
         else:
-            self.flags = set(re.sub(r'[\*\?]', '', self.text))
-            # There are ) flags used in real-life sv_* dictionaries
-            # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
-            # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            tokens = re.findall(r'([^*?])([*?]?)', self.text)
+
+        self.flags = {flag for flag, _ in tokens}
+        # Flags are separated with "," when matching, otherwise 1,11 and 11,1 would be the same
+        parts = [f"(?:{re.escape(flag)},){quantifier}" for flag, quantifier in tokens]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
@@ -327,14 +326,14 @@ class CompoundRule:
     def fullmatch(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.re.fullmatch(''.join(fc))
+            self.re.fullmatch(''.join(f'{flag},' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
     def partial_match(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.partial_re.fullmatch(''.join(fc))
+            self.partial_re.fullmatch(''.join(f'{flag},' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
-- 
2.43.0


From 5902965de7a7f7043de2cfe38f138c669d60ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:00:02 +0000
Subject: [PATCH 19/37] fix: moving a character to the end of the word was
 never tried

As the comment for suggestions tells, 'rnai' should also try 'nair' and
'rain'.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..7301323 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -170,7 +170,7 @@ def movechar(word: str) -> Iterator[str]:
         return
 
     for frompos, char in enumerate(word):
-        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
+        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE) + 1):
             yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
 
     for frompos in reversed(range(len(word))):
-- 
2.43.0


From 0c9fafd22d659bcf87868d1bdd581ee12738ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:00:05 +0000
Subject: [PATCH 20/37] fix: two-letter doubling at the start of the word
 compared to its last letter

Negative index made 'cacda' look like a doubling, suggesting 'cda'.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 7301323..8bf6544 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From 4248a0d42f50329c686684a008833f83ab466f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:00:50 +0000
Subject: [PATCH 21/37] fix: forbidden affixed forms were accepted when
 capitalized

With forbidden 'decreated', 'Decreated' was still accepted as 'create' with
affixes.
---
 spylls/hunspell/algo/lookup.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 7810c3f..fbd50a5 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -385,6 +385,11 @@ class Lookup:
                                      allow_nosuggest=allow_nosuggest,
                                      **kwarg)
 
+        # If all dictionary entries for the word itself are forbidden, no analysis can make it correct
+        if not with_forbidden and self.aff.FORBIDDENWORD and \
+                self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
+            return
+
         # ``produce_affix_forms`` produces ALL possible forms (split of the word into prefixes +
         # stem + suffixes) with the help of known prefixes and affixes. Now we need to choose only
         # correct ones.
-- 
2.43.0


From 4ac67c2d625fb3875fce850fbcbeb4000e939e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:00:53 +0000
Subject: [PATCH 22/37] fix: forbidden stem prevented other analyses of the
 word

If one of possible stems of the word was forbidden, the remaining stem and
affixes combinations were never tried.
---
 spylls/hunspell/algo/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index fbd50a5..5091e33 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -408,6 +408,9 @@ class Lookup:
             if (not with_forbidden and self.aff.FORBIDDENWORD and
                     (compoundpos or form.has_affixes()) and
                     any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
+                # ...but other stem + affixes combinations are still possible
+                if form.has_affixes():
+                    continue
                 return
 
             for homonym in homonyms:
-- 
2.43.0


From be04842cbfce60c1822c84c027234bf3368a36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:21 +0000
Subject: [PATCH 23/37] fix: priority of phonetic rule was taken for a letter

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index aab2f6c..2c3d460 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -476,7 +476,7 @@ class PhonetTable:
     table: List[Tuple[str, str]]
 
     RULE_PATTERN = re.compile(
-        r'(?P<letters>\w+)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?'
+        r'(?P<letters>[^\W\d]+)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?'
     )
 
     @dataclass
-- 
2.43.0


From cfc6ee79d1eafcd7f9179ded2245f4f81775a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:46 +0000
Subject: [PATCH 24/37] fix: system dictionary was not read from a folder with
 .aff in its name

---
 spylls/hunspell/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 6e656f7..b440c0b 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -177,7 +177,7 @@ class Dictionary:
         for folder in cls.PATHES:
             pathes = glob.glob(f'{folder}/{name}.aff')
             if pathes:
-                return cls.from_files(pathes[0].replace('.aff', ''))
+                return cls.from_files(pathes[0][:-len('.aff')])
 
         raise LookupError(f'{name}.aff not found (search pathes are {cls.PATHES!r})')
 
-- 
2.43.0


From 606b704b54ce74cdd76f0e8997db340d485aff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:23 +0000
Subject: [PATCH 25/37] fix: suggest failed if an empty form was to be
 capitalized

---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index be71988..cbde0b5 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -154,7 +154,7 @@ class Casing:
         found suggestion "kitten", then this method makes it "Kitten".
         """
         if cap in (Type.INIT, Type.HUHINIT):
-            return self.upper(word[0]) + word[1:]
+            return self.upper(word[:1]) + word[1:]
         if cap == Type.ALL:
             return self.upper(word)
         return word
-- 
2.43.0


From 55aabf5658ec6fbb65ae7c0d85a90d8885f3e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:25:06 +0000
Subject: [PATCH 26/37] fix: time to match compound rules does not grow
 exponentially with word length

Rules were matched with every combination of the relevant flags of the parts.
With the bundled en_US dictionary, lookup of 30 digits followed by a letter
tried more than 2^30 combinations. Now the reachable positions in the rule
are followed instead.
---
 spylls/hunspell/data/aff.py | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 2c3d460..cb6cd40 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -69,7 +69,6 @@ This classes are wrapping several types of somewhat pattern-alike objects that c
 """
 
 import re
-import functools
 import itertools
 from operator import itemgetter
 
@@ -314,28 +313,31 @@ class CompoundRule:
         else:
             tokens = re.findall(r'([^*?])([*?]?)', self.text)
 
-        self.flags = {flag for flag, _ in tokens}
-        # Flags are separated with "," when matching, otherwise 1,11 and 11,1 would be the same
-        parts = [f"(?:{re.escape(flag)},){quantifier}" for flag, quantifier in tokens]
-
-        self.re = re.compile(''.join(parts))
-        self.partial_re = re.compile(
-            functools.reduce(lambda res, part: f"{part}({res})?", parts[::-1])
-        )
+        self.tokens = tokens
 
     def fullmatch(self, flag_sets):
-        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
-        return any(
-            self.re.fullmatch(''.join(f'{flag},' for flag in fc))
-            for fc in itertools.product(*relevant_flags)
-        )
+        return len(self.tokens) in self._positions(flag_sets)
 
     def partial_match(self, flag_sets):
-        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
-        return any(
-            self.partial_re.fullmatch(''.join(f'{flag},' for flag in fc))
-            for fc in itertools.product(*relevant_flags)
-        )
+        return bool(self._positions(flag_sets))
+
+    def _positions(self, flag_sets):
+        # All positions in the rule that can be reached with one flag of each set. (Trying all the
+        # combinations of flags instead takes ages for long words like "111111111111111111111111th".)
+        positions = self._with_skipped({0})
+        for flags in flag_sets:
+            positions = self._with_skipped({
+                pos if self.tokens[pos][1] == '*' else pos + 1
+                for pos in positions
+                if pos < len(self.tokens) and self.tokens[pos][0] in flags
+            })
+        return positions
+
+    def _with_skipped(self, positions):
+        for pos, (_, quantifier) in enumerate(self.tokens):
+            if pos in positions and quantifier:
+                positions.add(pos + 1)
+        return positions
 
 
 @dataclass
-- 
2.43.0


From b2fbf6c5a59dd32a15b630802a1d88c355c018fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:57:29 +0000
Subject: [PATCH 27/37] fix: close dictionary files after reading

Files were left open until the garbage collector found their readers,
also when reading them failed.
---
 spylls/hunspell/dictionary.py          | 20 ++++++++++++--------
 spylls/hunspell/readers/file_reader.py | 11 ++++++++++-
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index b440c0b..981a8f7 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -138,8 +138,10 @@ class Dictionary:
         if path in cls.DISTRIBUTED and not os.path.exists(path + '.aff'):
             path = os.path.join(os.path.dirname(os.path.realpath(__file__)), 'data', cls.DISTRIBUTED[path], path)
 
-        aff, context = readers.read_aff(FileReader(path + '.aff'))
-        dic = readers.read_dic(FileReader(path + '.dic', encoding=context.encoding), aff=aff, context=context)
+        with FileReader(path + '.aff') as source:
+            aff, context = readers.read_aff(source)
+        with FileReader(path + '.dic', encoding=context.encoding) as source:
+            dic = readers.read_dic(source, aff=aff, context=context)
 
         return cls(aff, dic)
 
@@ -155,12 +157,14 @@ class Dictionary:
             path: Path to zip-file/extension.
         """
 
-        file = zipfile.ZipFile(path)
-        # TODO: fail if there are several
-        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
-        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
-        aff, context = readers.read_aff(ZipReader(file.open(aff_path)))
-        dic = readers.read_dic(ZipReader(file.open(dic_path), encoding=context.encoding), aff=aff, context=context)
+        with zipfile.ZipFile(path) as file:
+            # TODO: fail if there are several
+            aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
+            dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
+            with ZipReader(file.open(aff_path)) as source:
+                aff, context = readers.read_aff(source)
+            with ZipReader(file.open(dic_path), encoding=context.encoding) as source:
+                dic = readers.read_dic(source, aff=aff, context=context)
 
         return cls(aff, dic)
 
diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index a22a421..d9442d7 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -31,6 +31,12 @@ class BaseReader:
 
         self.reset_io(obj)
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *_):
+        self.io.close()
+
     def reset_encoding(self, encoding):
         raise NotImplementedError
 
@@ -70,6 +76,7 @@ class FileReader(BaseReader):
         super().__init__(self._open(path, encoding))
 
     def reset_encoding(self, encoding):
+        self.io.close()
         self.reset_io(self._open(self.path, encoding))
 
     def _open(self, path, encoding):  # pylint: disable=no-self-use
@@ -89,8 +96,10 @@ class ZipReader(BaseReader):
 
     def reset_encoding(self, encoding):
         zipname, path = self.zipfile
+        self.io.close()
         # FIXME: Like, really?..
-        self.reset_io(self._open(zipfile.ZipFile(zipname).open(path), encoding))
+        with zipfile.ZipFile(zipname) as file:
+            self.reset_io(self._open(file.open(path), encoding))
 
     def _open(self, zip_obj, encoding):  # pylint: disable=no-self-use
         return io.TextIOWrapper(zip_obj, encoding=encoding, errors='surrogateescape')
-- 
2.43.0


From 43276d8c4048005b447731b169b7be6a9a2da6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:49:23 +0000
Subject: [PATCH 28/37] fix: loading never ended if morphological aliases refer
 to each other

---
 spylls/hunspell/readers/dic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 1396178..a37131d 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -160,8 +160,9 @@ def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]
             # If it is just numeric, it is "morphology alias"
             # (defined in .aff file list of data tags corresponding to some number)
             # So we just mutate the list of tags we are currently processing, so those fetched
-            # by numeric alias would be handled.
-            parts.extend(aliases[tag_str])
+            # by numeric alias would be handled. (Numbers inside of an alias aren't aliases, so the loop
+            # ends even if they refer to each other.)
+            parts.extend(tag for tag in aliases[tag_str] if not tag.isdigit())
         else:
             pass
 
-- 
2.43.0


From 77aa27852ae14c0ef2364b969478d5dd7131994d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:49:23 +0000
Subject: [PATCH 29/37] fix: suggest never ended if a phonetic rule is all
 lookahead

---
 spylls/hunspell/algo/phonet_suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index 77de4f6..2bf25e2 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -119,7 +119,8 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-                pos += match.span()[1] - match.span()[0]
+                # Rule consisting only of lookahead matches without consuming anything
+                pos += max(1, match.span()[1] - match.span()[0])
                 break
         if not match:
             pos += 1
-- 
2.43.0


From 9a6c36da4a308c3d242b5ff0ddda20e22c8e2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:49:23 +0000
Subject: [PATCH 30/37] fix: lookup failed or never ended if COMPOUNDMIN is
 less than 1

---
 spylls/hunspell/data/aff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index cb6cd40..0310eec 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1133,6 +1133,9 @@ class Aff:
     SUBSTANDARD: Optional[str] = None
 
     def __post_init__(self):
+        # Part of the compound can't be empty
+        self.COMPOUNDMIN = max(self.COMPOUNDMIN, 1)
+
         suffixes = defaultdict(list)
         for suf in itertools.chain.from_iterable(self.SFX.values()):
             suffixes[suf.add[::-1]].append(suf)
-- 
2.43.0


From 0ff46f722d7f863a56a46965ccf56d1d599d2663 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:49:23 +0000
Subject: [PATCH 31/37] fix: time of lookup exploded if a break pattern is
 empty

---
 spylls/hunspell/algo/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 5091e33..d7cf7a1 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -252,6 +252,9 @@ class Lookup:
         yield [text]
         for pat in self.aff.BREAK:
             for m in pat.regexp.finditer(text):
+                # BREAK ^ and BREAK $ alone don't split anything
+                if m.start(1) == m.end(1):
+                    continue
                 start = text[:m.start(1)]
                 rest = text[m.end(1):]
                 for breaking in self.break_word(rest, depth=depth+1):
-- 
2.43.0


From 7285bb02c77d90dc212a2a28ab674de02da9e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:49:23 +0000
Subject: [PATCH 32/37] fix: lookup failed on very long affixes

---
 spylls/hunspell/algo/trie.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/trie.py b/spylls/hunspell/algo/trie.py
index ba6d42f..d297185 100644
--- a/spylls/hunspell/algo/trie.py
+++ b/spylls/hunspell/algo/trie.py
@@ -54,7 +54,10 @@ class Trie:
 
     def traverse(self, cur, path, traversed=[]):
         yield (traversed, cur)
-        if not path or path[0] not in cur.children:
-            return
+        for p in path:
+            if p not in cur.children:
+                return
 
-        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])
+            cur = cur.children[p]
+            traversed = [*traversed, p]
+            yield (traversed, cur)
-- 
2.43.0


From 77159f7daf2becf78875967b23f79f546913fbba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:49:40 +0000
Subject: [PATCH 33/37] fix: affix conditions with special characters

---
 spylls/hunspell/data/aff.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 0310eec..a1f8f6d 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -224,6 +224,11 @@ class Affix:
     #: Flags this affix has
     flags: Set[str] = field(default_factory=set)
 
+    def escaped_condition(self):
+        # Only ".", "[" "]" and "[^" have a special regex-meaning, other characters might happen as
+        # a regular word char (for ex., "-" in hu_HU)
+        return re.sub(r'(?<!\[)\^|[-\\$*+?(){}|]', r'\\\g<0>', self.condition)
+
 
 @dataclass
 class Prefix(Affix):
@@ -232,8 +237,7 @@ class Prefix(Affix):
     """
 
     def __post_init__(self):
-        # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
+        self.cond_regexp = re.compile('^' + self.escaped_condition())
         self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
@@ -251,8 +255,7 @@ class Suffix(Affix):
     """
 
     def __post_init__(self):
-        # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
+        self.cond_regexp = re.compile(self.escaped_condition() + '$')
         self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
-- 
2.43.0


From ad6aa7dddea3d087778c5e595c5330e09e640b29 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:50:45 +0000
Subject: [PATCH 34/37] fix: suggest never ended if one of the similar letters
 in MAP contains another

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 8bf6544..357f80e 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -70,7 +70,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From 7d41cf74331ca433b2652b059a339af2f9bcc913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:07:35 +0000
Subject: [PATCH 35/37] fix: lookup failed if an affix strips a backslash

The stripped text was used as a replacement template, in which backslashes
have a meaning.
---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index d7cf7a1..ace6e00 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -592,7 +592,7 @@ class Lookup:
             # stem is produced by removing the suffix, and, optionally, adding the part of the
             # stem (named ``strip``). For example, suffix might be declared as ``(strip=y, add=ier)``,
             # then to restore the original stem from word "prettier" we must remove "ier" and add back "y"
-            stem = suffix.replace_regexp.sub(suffix.strip, word)
+            stem = suffix.replace_regexp.sub(suffix.strip.replace('\\', r'\\'), word)
             # Even with matching flags, the suffix's condition still might prohibit this form
             if not suffix.cond_regexp.search(stem):
                 continue
@@ -629,7 +629,7 @@ class Lookup:
         )
 
         for prefix in possible_prefixes:
-            stem = prefix.replace_regexp.sub(prefix.strip, word)
+            stem = prefix.replace_regexp.sub(prefix.strip.replace('\\', r'\\'), word)
 
             if not prefix.cond_regexp.search(stem):
                 continue
-- 
2.43.0


From bc14d55884a0c833cac87f2003c0a53ea4476725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:41:15 +0000
Subject: [PATCH 36/37] fix: REP and BREAK patterns with ^ or $ in the middle
 never matched

---
 spylls/hunspell/data/aff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index a1f8f6d..be80355 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -103,8 +103,9 @@ class BreakPattern:
     pattern: str
 
     def __post_init__(self):
-        # special chars like #, -, * etc should be escaped, but ^ and $ should be treated as in regexps
-        pattern = re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$')
+        # special chars like #, -, * etc should be escaped, but ^ at the start and $ at the end should be
+        # treated as in regexps
+        pattern = re.sub(r'^\\(?=\^)|\\(?=\$$)', '', re.escape(self.pattern))
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
@@ -153,8 +154,8 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        # special chars should be escaped, but ^ and $ should be treated as in regexps
-        self.regexp = re.compile(re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$'))
+        # special chars should be escaped, but ^ at the start and $ at the end should be treated as in regexps
+        self.regexp = re.compile(re.sub(r'^\\(?=\^)|\\(?=\$$)', '', re.escape(self.pattern)))
 
 
 @dataclass
-- 
2.43.0


From f5967abb8f54c2c9df1509d011de85e07a3152fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:07 +0000
Subject: [PATCH 37/37] fix: analyses with two prefixes or two suffixes were
 printed in the wrong order

The second affix is the outer one, but it was printed next to the stem.
---
 spylls/hunspell/algo/lookup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index ace6e00..61fb201 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -48,7 +48,7 @@ class AffixForm:
 
     The following is always true (if we consider absent affixes just empty string)::
 
-        prefix + prefix2 + stem + suffix2 + suffix = text
+        prefix2 + prefix + stem + suffix + suffix2 = text
 
     ``prefix2``/``suffix2`` are "secondary", so if the word has only one suffix, it is stored in
     ``suffix`` and ``suffix2`` is ``None``.
@@ -94,15 +94,15 @@ class AffixForm:
             return f'AffixForm({self.text})'
 
         result = f'AffixForm({self.text} = '
-        if self.prefix:
-            result += f'{self.prefix!r} + '
         if self.prefix2:
             result += f'{self.prefix2!r} + '
+        if self.prefix:
+            result += f'{self.prefix!r} + '
         result += self.stem
-        if self.suffix2:
-            result += f' + {self.suffix2!r}'
         if self.suffix:
             result += f' + {self.suffix!r}'
+        if self.suffix2:
+            result += f' + {self.suffix2!r}'
         result += ')'
         return result
 
-- 
2.43.0

