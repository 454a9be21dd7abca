From b4ea9bc6845551f9d37c427ed446070f9f102c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 01/58] fix: levenshtein drops the substitution costs when the
 first string is shorter

---
 soynlp/hangle/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..c7103a9 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,7 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        return levenshtein(s2, s1, {(c2, c1): value for (c1, c2), value in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From 20143a381b815991efd1f4888f7273cdfbce4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 02/58] fix: emoticon_normalize loses syllables and final
 consonants next to lone consonants

---
 soynlp/normalizer/_normalizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..81b2d93 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,15 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
-            if (cho == sent[i-1]):
+            if (cho == sent[i-1]) and (jong == ' '):
                 sent_.append(cho)
                 sent_.append(jung)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From 9a71a74b1669774b6a6442c6b57472d2d2ddd71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 03/58] fix: MaxScoreTokenizer reports the default score for
 known short and in-between subtokens

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..25d0e87 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,7 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            return [(token, 0, length, self._scores.get(token, self._ds), length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +208,7 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            adds.append((subtoken, b, e, self._scores.get(subtoken, self._ds), e - b))
         
         return adds
 
-- 
2.43.0


From 7490dd43b3ba87b83ad541862c6f6fc96d97f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 04/58] fix: RegexTokenizer cuts English words after the letter
 s

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 25d0e87..dc9d13b 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -16,7 +16,7 @@ class RegexTokenizer:
             ('korean', re.compile(u'[가-힣]+', re.UNICODE)),
             ('jaum', re.compile(u'[ㄱ-ㅎ]+', re.UNICODE)),
             ('moum', re.compile(u'[ㅏ-ㅣ]+', re.UNICODE)),
-            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+[[`']?s]*|[a-zA-ZÀ-ÿ]+", re.UNICODE))
+            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+(?:[`']s)*", re.UNICODE))
         ]
         
         self.doublewhite_pattern = re.compile('\s+')
-- 
2.43.0


From 38007b8f2b249e360518a66e99212d5724e18a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 05/58] fix: calling RegexTokenizer or MaxLRScoreTokenizer
 switches debugging on

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index dc9d13b..1271144 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -21,7 +21,7 @@ class RegexTokenizer:
         
         self.doublewhite_pattern = re.compile('\s+')
 
-    def __call__(self, s, debug=True, flatten=True):
+    def __call__(self, s, debug=False, flatten=True):
         return self.tokenize(s, debug, flatten)
 
     def tokenize(self, s, debug=False, flatten=True):
@@ -274,7 +274,7 @@ class MaxLRScoreTokenizer:
         self.ensurable_score_l = ensurable_score_l
         self.ensurable_score_lr_diff = ensurable_score_lr_diff
 
-    def __call__(self, sent, debug=True, flatten=True):
+    def __call__(self, sent, debug=False, flatten=True):
         return self.tokenize(sent, debug, flatten)
 
     def tokenize(self, sent, debug=False, flatten=True):
-- 
2.43.0


From aac0c1a8ec4be3d88b3227b3d97c4cbe95298032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 06/58] fix: MaxLRScoreTokenizer repeats the last R part,
 misplaces leftovers and fails on known R words

---
 soynlp/tokenizer/_tokenizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 1271144..785b460 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -416,7 +416,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -434,7 +434,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
@@ -451,7 +451,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.Dr[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 10c3646d0d8073c3f7dde103fe6510eaa8013907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 07/58] fix: NounMatchTokenizer emits an empty noun and stale
 scores around gaps

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From f210d0226b66b2fd6b229fa48334fcb80f8290af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 08/58] fix: UnknowLRPostprocessor drops words without any
 dictionary match

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From 51a308bff95136dc8782ab69da145a8b7670a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 09/58] fix: LREvaluator orders the selected words by their R
 string instead of their position

---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From e8661f2649bd2e81593aad393603162d29b7be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 10/58] fix: tags of equally scored words depend on the hash
 seed

---
 soynlp/postagger/_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_template.py b/soynlp/postagger/_template.py
index 18d0add..7eb9e2e 100644
--- a/soynlp/postagger/_template.py
+++ b/soynlp/postagger/_template.py
@@ -84,7 +84,7 @@ class LRTemplateMatcher(BaseTemplateMatcher):
     
     def _pos_L(self, word):
         poses = self.dictionary.get_pos(word)
-        poses = {pos for pos in poses if pos in self.ltags}
+        poses = [pos for pos in poses if pos in self.ltags]
         return poses
 
     def _initialize_L(self, t):
-- 
2.43.0


From 0da9507ba3a4eeda0db39d910161b4ed8aba9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 11/58] fix: Dictionary shares the caller's collections and
 fails to add or remove lists of words

---
 soynlp/postagger/_dictionary.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..1415429 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -10,12 +10,12 @@ import os
 class Dictionary:
     def __init__(self, pos_dict):
         if isinstance(pos_dict, dict):
-            for key in pos_dict:
-                if sys.version_info.major == 2:
-                    pos_dict[key] = set(map(unicode, pos_dict[key]))
-                else:
-                    pos_dict[key] = set(pos_dict[key])
-            self.pos_dict = pos_dict
+            if sys.version_info.major == 2:
+                self.pos_dict = {key:set(map(unicode, words))
+                    for key, words in pos_dict.items()}
+            else:
+                self.pos_dict = {key:set(words)
+                    for key, words in pos_dict.items()}
             self.max_length = self._check_max_length(self.pos_dict)
         elif isinstance(pos_dict, str):
             if os.path.exists(pos_dict):
@@ -68,8 +68,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 3eccbc2ebecce2bc21574d8fa5081d1acfbb9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 12/58] fix: Dictionary fails on an empty dictionary or an
 empty list of words

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 1415429..2c6f9f8 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -24,7 +24,7 @@ class Dictionary:
                 raise ValueError('dictionary file does not exist')
 
     def _check_max_length(self, pos_dict):
-        return max((len(word) for words in pos_dict.values() for word in words))
+        return max((len(word) for words in pos_dict.values() for word in words), default=0)
 
     def get_pos(self, word):
         tags = []
@@ -43,7 +43,7 @@ class Dictionary:
             message = 'Check your tag or use add_words(tag, words, force=True)'.format(tag)
             raise ValueError(message)
 
-        max_length = max((len(word) for word in words))
+        max_length = max((len(word) for word in words), default=0)
         if self.max_length < max_length:
             self.max_length = max_length
 
-- 
2.43.0


From 3926f0d14ba039fe49b36e8f7934c62857d3a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 13/58] fix: LRGraph built from sentences counts prefix lengths
 instead of occurrences

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..cc47c99 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -347,7 +347,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From 2d5c15aa522184bbaf4f155ab7f33fe7a06cb7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 14/58] fix: LRGraph cannot add an L-R pair with a new L or R

---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index cc47c99..cfa5acb 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -383,9 +383,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From 4d9605e441c14209b5ac04d17b7f24092e909b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 15/58] fix: LRGraph cannot be reset to, copied from or loaded
 as an empty graph

---
 soynlp/utils/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index cfa5acb..ec5d38e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -358,6 +358,8 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
+        if not lrgraph:
+            return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
@@ -374,7 +376,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if not self._lr_origin:
+        if self._lr_origin is None:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
@@ -443,6 +445,7 @@ class LRGraph:
             {l:{r:c for r,c in rdict.items()}
              for l, rdict in self._lr_origin.items()}
         )
+        lr_graph.freeze()
         return lr_graph
 
     def to_EojeolCounter(self, reset_lrgraph=False):
-- 
2.43.0


From c6ac69a01b4e6d395c35ae3f0218fd6cfd676057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 16/58] fix: LRGraph modifies the nested dictionaries it was
 built from

---
 soynlp/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index ec5d38e..c05ad43 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -361,11 +361,10 @@ class LRGraph:
         if not lrgraph:
             return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
-        if nested_dict_type == defaultdict:
-            lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
-        elif not (nested_dict_type == dict):
+        if not (nested_dict_type == dict or nested_dict_type == defaultdict):
             raise ValueError('nested value type should be dict, not {}'.format(
                 nested_dict_type))
+        lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         rlgraph = defaultdict(lambda: defaultdict(int))
         for l, rdict in lrgraph.items():
             for r, c in rdict.items():
-- 
2.43.0


From 726cdb7cf4c6411a24f8cfe69a1049a8139bf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 17/58] fix: EojeolCounter.to_lrgraph ignores
 ignore_one_syllable

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index c05ad43..c0aa366 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -281,7 +281,7 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From 206d822cc4632a27bcb871b9a0c5f18fcb2e293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/58] fix: DoublespaceLineCorpus ignores a document limit
 over blank lines and fails on empty files

---
 soynlp/utils/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index c0aa366..94b9c10 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -131,6 +131,7 @@ class DoublespaceLineCorpus:
             return 0, 0
 
         # check length
+        doc_idx = -1
         for doc_idx, doc in enumerate(f):
             if (num_doc > 0) and (doc_idx >= num_doc):
                 return doc_idx, num_sent_
@@ -172,6 +173,8 @@ class DoublespaceLineCorpus:
                 continue
 
             # yield sents
+            if (self.num_doc > 0) and (doc_idx >= self.num_doc):
+                break
             for sent in doc.split('  '):
                 if (self.num_sent > 0) and (num_sent >= self.num_sent):
                     stop = True
-- 
2.43.0


From ee88398075a64219f7559bc701ef1fe147189e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 19/58] fix: most_similar returns topk + 1 items when the query
 is not its own nearest neighbour

---
 soynlp/utils/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 94b9c10..7b01acd 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -72,10 +72,10 @@ def most_similar(query, vector, item_to_idx, idx_to_item, topk=10):
         return []
     qvec = vector[q].reshape(1,-1)
     dist = pairwise_distances(qvec, vector, metric='cosine')[0]
-    sim_idxs = dist.argsort()
+    sim_idxs = [idx for idx in dist.argsort() if idx != q]
     if topk > 0:
-        sim_idxs = sim_idxs[:topk+1]
-    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs if idx != q]
+        sim_idxs = sim_idxs[:topk]
+    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs]
     return similars
 
 def check_corpus(corpus):
-- 
2.43.0


From 7bf0105393e0ff08ef28cb62edde0a74b9c3e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 20/58] fix: BaseVectorizer counts documents instead of
 occurrences as term frequency

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From 7e5b19ce37b37ba46ddf1c4e83a3865bf29d6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 21/58] fix: BaseVectorizer ignores the stopwords

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index daa4631..59eb7eb 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -56,7 +56,7 @@ class BaseVectorizer:
         tf = {term:tf_t for term, tf_t in tf.items() if self.min_tf <= tf_t <= self.max_tf}
 
         # build vocabulary_
-        vocabs = {term:tf_t for term, tf_t in tf.items() if term in df}
+        vocabs = {term:tf_t for term, tf_t in tf.items() if term in df and not (term in self.stopwords)}
         self.vocabulary_ = {term:idx for idx, (term, _) in enumerate(
             sorted(vocabs.items(), key=lambda x:-x[1]))}
         self.idx2vocab = [term for term, _ in sorted(
-- 
2.43.0


From d1ac53909bc64c5ec83af7f7560010554eb867f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 22/58] fix: word-context matrix has no row and column for
 words without any context

---
 soynlp/vectorizer/_word_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..0467d9f 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -103,6 +103,7 @@ def _word_context(sents, windows, tokenizer, dynamic_weight, verbose, vocab2idx)
 
 def _encode_as_matrix(word2contexts, vocab2idx, verbose):
 
+    n_vocabs = len(vocab2idx)
     rows = []
     cols = []
     data = []
@@ -113,7 +114,7 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From b5db660ffbbc37d5c0d8813d328b227b6a432bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 23/58] fix: order of equally frequent words in the
 word-context matrix depends on the hash seed

---
 soynlp/vectorizer/_word_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index 0467d9f..019e214 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -43,7 +43,7 @@ def _scanning_vocabulary(sents, min_tf, tokenizer, verbose):
         _print_status('  - counting word frequency', i_sent, new_line=True)
 
     # filtering with min_tf    
-    vocab2idx = {word for word, count in word_counter.items() if count >= min_tf}
+    vocab2idx = [word for word, count in word_counter.items() if count >= min_tf]
     vocab2idx = {word:idx for idx, word in enumerate(
         sorted(vocab2idx, key=lambda w:-word_counter[w]))}
     idx2vocab = [word for word, _ in sorted(vocab2idx.items(), key=lambda w:w[1])]
-- 
2.43.0


From 30e745e8b6e303f15c695007a1a5638000bf8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 24/58] fix: pmi assigns values to wrong words if the matrix
 stores zeros

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..57f6eb7 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -14,9 +14,9 @@ def _as_diag(px, alpha):
 def _logarithm_and_ppmi(exp_pmi, min_exp_pmi):
     n, m = exp_pmi.shape
 
-    # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    rows, cols = exp_pmi.nonzero()
-    data = exp_pmi.data
+    # (row, col, data) aligned even if the matrix stores zeros explicitly
+    exp_pmi = exp_pmi.tocoo()
+    rows, cols, data = exp_pmi.row, exp_pmi.col, exp_pmi.data
 
     indices = np.where(data >= min_exp_pmi)[0]
     rows = rows[indices]
-- 
2.43.0


From 3b4930c3f6f7270adcc4a33887a3c9a6e0b8b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 25/58] fix: pmi_memory_friendly fails on every matrix with
 more than one context

---
 soynlp/word/_pmi.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 57f6eb7..76d7ca7 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
@@ -146,14 +146,13 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     # PPMI using threshold
     min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)
 
-    # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    indices = np.where(exp_pmi.data > min_exp_pmi)[0]
+    # prepare data (rows, cols, data)
+    exp_pmi = exp_pmi.tocoo()
+    rows, cols, data = exp_pmi.row, exp_pmi.col, exp_pmi.data
 
-    pmi_dok = dok_matrix(exp_pmi.shape)
+    indices = np.where(data >= min_exp_pmi)[0]
 
-    # prepare data (rows, cols, data)
-    rows, cols = exp_pmi.nonzero()
-    data = exp_pmi.data
+    pmi_dok = dok_matrix(exp_pmi.shape)
 
     # enumerate function for printing status
     for _n_idx, idx in enumerate(indices):
-- 
2.43.0


From 01045475f702141748f945010dda3028ea6f9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 26/58] fix: WordExtractor scores leave out the branching of
 the longest words

---
 soynlp/word/_word.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..150152c 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -190,7 +190,7 @@ class WordExtractor:
         def get_entropy_table(parse, sorted_by_length, sorted_by_length_a, max_length, counter, counter_a):
             num_sum = sum((len(words) for length, words in sorted_by_length.items()))
             be = {}
-            for word_len in range(2, max_length):
+            for word_len in range(2, max_length + 1):
                 words = sorted_by_length.get(word_len, [])
                 extensions = defaultdict(lambda: [])
                 for word in words:
@@ -209,8 +209,10 @@ class WordExtractor:
                 be[word] = (0, v)
             return be
 
-        be_l = get_entropy_table(parse_right, sort_by_length(self.R), sort_by_length(self._aR), self.max_right_length+1, self.R, self._aR)
-        be_r = get_entropy_table(parse_left, sort_by_length(self.L), sort_by_length(self._aL), self.max_left_length+1, self.L, self._aL)
+        # words can be as long as the longer limit, and their extensions longer by one
+        max_length = max(self.max_left_length, self.max_right_length) + 1
+        be_l = get_entropy_table(parse_right, sort_by_length(self.R), sort_by_length(self._aR), max_length, self.R, self._aR)
+        be_r = get_entropy_table(parse_left, sort_by_length(self.L), sort_by_length(self._aL), max_length, self.L, self._aL)
         be = merge(be_l, be_r)
         if self.verbose > 0:
             print_head = 'branching entropies' if get_score == _entropy else 'accessor variety'
-- 
2.43.0


From db90bab07351166bddf4a77a3c0ac5cb53d5b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 27/58] fix: Lemmatizer.candidates calls a method that does not
 exist

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From b9ceb41426b7be54a777bcc652ab3b41a9906163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 28/58] =?UTF-8?q?fix:=20conjugate=20contracts=20stems=20en?=
 =?UTF-8?q?ding=20in=20=E3=85=8E=20with=20endings=20such=20as=20=EA=B1=B0?=
 =?UTF-8?q?=EB=93=A0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e021f53..aecc153 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -259,7 +259,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # ㅎ (축약) 불규칙 할용
     # 파랗 + 았다 -> 파랬다 / 시퍼렇 + 었다 -> 시퍼렜다
     if ( (l_last[2] == 'ㅎ' and l_last_ != '좋') and
-         (r_first[0] == 'ㅇ' and r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ') ):
+         r_first[0] == 'ㅇ' and (r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ') ):
         l = stem[:-1] + compose(l_last[0], 'ㅐ' if r_first[1] == 'ㅏ' else 'ㅔ', r_first[2])
         r = ending[1:]
         surface = l + r
-- 
2.43.0


From 1c2bb1d9be56f4efba19c172befa7349a6e700cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 29/58] fix: vowel harmony changes endings that start with a
 consonant after neuter stems

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index aecc153..2f3de11 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -63,7 +63,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
              (r_first[0] == 'ㅇ' and r_first[1] in positive_moum) ):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
-        if (l_last[1] in neuter_moum) and (r_first[1] in positive_moum):
+        if (l_last[1] in neuter_moum) and (r_first[0] == 'ㅇ' and r_first[1] in positive_moum):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
 
-- 
2.43.0


From 2a0a30985df061cf5c10666b11751ad9bd3fe44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 30/58] =?UTF-8?q?fix:=20conjugate=20drops=20the=20final=20?=
 =?UTF-8?q?consonant=20of=20the=20ending=20after=20stems=20ending=20in=20?=
 =?UTF-8?q?=ED=91=B8?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 2f3de11..3dd0aa8 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -161,7 +161,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ' and r_first[0] == 'ㅇ' and r_first[1] == 'ㅓ':
         if l_last_ == '푸':
-            l = stem[:-1] + '퍼'
+            l = stem[:-1] + compose('ㅍ', 'ㅓ', r_first[2])
         else:
             l = stem[:-1] + compose(l_last[0], 'ㅝ', r_first[2])
         r = ending[1:]
-- 
2.43.0


From 7989eefd1df5e6b919391d1951c34164f8a92364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 31/58] =?UTF-8?q?fix:=20imperatives=20of=20stems=20with=20?=
 =?UTF-8?q?neuter=20vowels=20are=20conjugated=20with=20=EC=95=84=EB=9D=BC?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 3dd0aa8..e32058a 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -208,12 +208,12 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
             l = stem
             r = ending[1:]
         else:
-            if l_last[1] in negative_moum:
+            if l_last[1] in positive_moum:
                 l = stem
-                r = '어' + ending[1:]
+                r = '아' + ending[1:]
             else:
                 l = stem
-                r = '아' + ending[1:]
+                r = '어' + ending[1:]
         surface = l + r
         candidates.add(surface)
         if debug:
-- 
2.43.0


From 77fd5665e139ed6b902add473f6a89be46a4c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 32/58] =?UTF-8?q?fix:=20surfaces=20of=20stems=20ending=20i?=
 =?UTF-8?q?n=20=ED=91=B8=20lack=20=ED=8D=BC?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e32058a..41bbd15 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -350,7 +350,10 @@ def _conjugate_stem(stem, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ':
         if l_last_ == '푸':
-            l = '퍼'
+            candidates.add(stem[:-1] + '퍼')
+            candidates.add(stem[:-1] + '펐')
+            if debug:
+                print('우 불규칙')
         else:
             candidates.add(stem[:-1] + compose(l_last[0], 'ㅝ', ' '))
             candidates.add(stem[:-1] + compose(l_last[0], 'ㅝ', 'ㅆ'))
-- 
2.43.0


From 3f9d260899e1e002f9ef7f116cea7cdc755231f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 33/58] =?UTF-8?q?fix:=20broken=20vowel=20harmony=20of=20st?=
 =?UTF-8?q?ems=20ending=20in=20=EA=BC=BD=20is=20applied=20to=20stems=20end?=
 =?UTF-8?q?ing=20in=20=EA=B3=B1?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 41bbd15..2c2869c 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -113,7 +113,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     if (l_last[2] == 'ㅂ'):
         l = stem[:-1] + compose(l_last[0], l_last[1], ' ')
         if (r_first_ == '어' or r_first_ == '아'):
-            if l_len >= 2 and (l_last_ == '답' or l_last_ == '곱' or l_last_ == '깝' or l_last_ == '롭'):
+            if l_len >= 2 and (l_last_ == '답' or l_last_ == '꼽' or l_last_ == '깝' or l_last_ == '롭'):
                 c1 = 'ㅝ'
             elif r_first[1] == 'ㅗ':
                 c1 = 'ㅘ'
-- 
2.43.0


From 3505fa1eb8cc3ffe0cd5c796df60c7dd418d11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 34/58] fix: LRNounExtractor_v2 fails when postprocessing is
 given

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..3a90b8e 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From 24e34ef2036295f93898cf2378fa213de4e7762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 35/58] fix: frequency and score of compound nouns are swapped

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 3a90b8e..83ad671 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From 23738ba27b83681e4d0fd77f6c6b77316674c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 36/58] fix: domain pos features are extracted with noun
 frequency and score swapped

---
 soynlp/noun/_josa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..3f25640 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[1] >= min_noun_score) 
+                 and (score[0] >= min_noun_frequency))}
 
     if ignore_features is None:
         ignore_features = {}
-- 
2.43.0


From 42037526cec46da12fa50cdaec4f0aceb1a073e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 37/58] fix: verbose noun extraction fails when no eojeol is
 left to count

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 83ad671..3eb947f 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -630,5 +630,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
-- 
2.43.0


From e614d69f52dc483a81b9dd1f46192817f1234c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 38/58] fix: check_dirs never creates a directory

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 7b01acd..8a8ad19 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -24,7 +24,7 @@ def get_process_memory():
 
 def check_dirs(filepath):
     dirname = os.path.dirname(filepath)
-    if dirname and dirname == '.' and not os.path.exists(dirname):
+    if dirname and not os.path.exists(dirname):
         os.makedirs(dirname)
         print('created {}'.format(dirname))
 
-- 
2.43.0


From cc21315b9ba3eaff1f7f756ed70915dfdf996762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 39/58] fix: missing comma in soynlp.utils.__all__

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From b8c6c19f2fefbce92944c8c8fff4fb0759fb72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 40/58] fix: LRNounExtractor never finds nouns from their
 subwords

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..9fc7ad6 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -150,7 +150,7 @@ class LRNounExtractor:
             if len(word) <= 1:
                 continue
 
-            score = self.predict(word, nouns)
+            score = self.predict(word, min_noun_score, nouns)
 
             if score[0] < min_noun_score:
                 continue
-- 
2.43.0


From 4c10ecd981be5a872abb92dbc9af4f2264c70c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 41/58] fix: PredicatorExtractor adds extracted eomis to the
 caller's set

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..5cd9039 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -53,7 +53,7 @@ class PredicatorExtractor:
         self._verb_stems = verbs
         self._stems = {stem for stem in adjectives}
         self._stems = self._stems.union(verbs)
-        self._eomis = eomis
+        self._eomis = set(eomis)
         self.verbose = verbose
         self.extract_eomi = extract_eomi
         self.extract_stem = extract_stem
-- 
2.43.0


From 6c2f872f7127ddc12bc948ad5482e6c120c23c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 42/58] fix: PredicatorExtractor ignores the minimum eojeol
 frequency and checkpoint for sentences

---
 soynlp/predicator/_predicator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 5cd9039..5ea7c0b 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -194,8 +194,6 @@ class PredicatorExtractor:
     def _train_with_sentences(self, sentences, min_eojeol_frequency=2,
         filtering_checkpoint=100000):
 
-        check = filtering_checkpoint > 0
-
         if self.verbose:
             message = 'counting eojeols ... '
             self._print(message, replace=False, newline=False)
@@ -209,11 +207,12 @@ class PredicatorExtractor:
         eojeol_counter = EojeolCounter(
             sentences,
             min_count = min_eojeol_frequency,
+            filtering_checkpoint = filtering_checkpoint,
             verbose = self.verbose,
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         eojeol_counter._counter = {
-- 
2.43.0


From 746e00df11520ffe3dd4c0c7823c4e6e3378b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 43/58] fix: PredicatorExtractor removes rare eojeols from the
 caller's EojeolCounter

---
 soynlp/predicator/_predicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 5ea7c0b..269d4bb 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -215,10 +215,13 @@ class PredicatorExtractor:
         self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
-        eojeol_counter._counter = {
+        # do not modify the counter which user inserted
+        counter = {
             eojeol:count for eojeol, count in eojeol_counter._counter.items()
             if count >= min_eojeol_frequency}
 
+        eojeol_counter = EojeolCounter(None)
+        eojeol_counter._counter = counter
         eojeol_counter._set_count_sum()
         self._num_of_eojeols = len(eojeol_counter)
         self._num_of_covered_eojeols = 0
-- 
2.43.0


From 9d0b3b6ba97d4457b15bb695d80b934132594655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 44/58] fix: PredicatorExtractor drops predicators of exactly
 the minimum frequency

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 269d4bb..bd8706b 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -331,7 +331,7 @@ class PredicatorExtractor:
         if (eojeol_counter is None) or (not eojeol_counter):
             eojeol_counter = {
                 eojeol:count for eojeol, count in self.eojeol_counter.items()
-                if (count > min_frequency) and all_character_are_complete_korean(eojeol)
+                if (count >= min_frequency) and all_character_are_complete_korean(eojeol)
             }
 
         lemmas = self._as_lemma_candidates(eojeol_counter)
-- 
2.43.0


From 35329b2a77d936fe0c6032f7938a4304f67c20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 45/58] fix: verbose predicator extraction fails when no eojeol
 is left to count

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bd8706b..49bbd30 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -391,7 +391,7 @@ class PredicatorExtractor:
 
         lemmas = self._remove_wrong_eomis(lemmas, eomi_to_word_count)
         if self.verbose:
-            perc = '%.3f' % (100 * self._count_of_covered_eojeols / self._count_of_eojeols)
+            perc = '%.3f' % (100 * self._count_of_covered_eojeols / max(1, self._count_of_eojeols))
             message = 'lemma candidating was done'
             self._print(message, replace=True, newline=True)
 
-- 
2.43.0


From a74df7a7ae0da33990be9f92e10b6a4248c1ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 46/58] fix: PredicatorExtractor.is_trained reads an attribute
 that does not exist

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 49bbd30..348b688 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -133,7 +133,7 @@ class PredicatorExtractor:
 
     @property
     def is_trained(self):
-        return self.lrgraph
+        return self.eojeol_counter
 
     def train_extract(self, inputs, min_eojeol_frequency=2,
         filtering_checkpoint=100000, candidates=None,
-- 
2.43.0


From 920fdd0203b6b5ef610b16c056b13f4e7275f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 47/58] fix: NewsNounExtractor fails when a base noun
 dictionary is given

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f58e5df..a518bd8 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,7 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = noun_dictionary if base_noun_dictionary else {}
+        self.noun_dictionary = {noun:0 for noun in base_noun_dictionary} if base_noun_dictionary else {}
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
-- 
2.43.0


From 1ce509e02fd7ce3a3141221aa65cb518cd075f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 48/58] fix: Bigram scores use the number of distinct bigrams
 as unigram frequency

---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..edcb6b1 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -64,7 +64,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From 09373507fefce55198ff18fa9ea87a2389cbd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 49/58] fix: Bigram.extract ignores topk

---
 soynlp/word/_phrase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index edcb6b1..3e67f8a 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -92,6 +92,9 @@ class Bigram:
             if pmi >= threshold:
                 pmis[bigram] = pmi
 
+        if topk > 0:
+            pmis = dict(sorted(pmis.items(), key=lambda x:-x[1])[:topk])
+
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
         return bigrams
@@ -99,7 +102,7 @@ class Bigram:
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
         if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
+            bigrams = sorted(bigrams, key=lambda x:-x[1])[:topk]
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
         return bigrams
 
@@ -116,6 +119,9 @@ class Bigram:
             if s >= threshold:
                 scores[bigram] = s
 
+        if topk > 0:
+            scores = dict(sorted(scores.items(), key=lambda x:-x[1])[:topk])
+
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
         return bigrams
\ No newline at end of file
-- 
2.43.0


From 7b2455a95f1e68b03ae08605d265cb0c272de429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 50/58] fix: Bigram ignores the sentences it is created with
 and fails on empty ones in verbose mode

---
 soynlp/word/_phrase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 3e67f8a..8768133 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -28,6 +28,9 @@ class Bigram:
         self.ngram_selector = ngram_selector
         self._counter = None
 
+        if sentences is not None:
+            self.train(sentences)
+
     @property
     def is_trained(self):
         return self._counter
@@ -39,6 +42,7 @@ class Bigram:
             return bigrams
 
         self._counter = {}
+        i_sent = 0
 
         for i_sent, sent in enumerate(sentences):
 
-- 
2.43.0


From 6a3c1e6952d099d616f09d457e9db1b6e3a866a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 51/58] fix: ChatPOSExtractor lists the stems of predicator
 compounds

---
 soynlp/pos/_chat_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_chat_pos.py b/soynlp/pos/_chat_pos.py
index fdeda3d..44de49d 100644
--- a/soynlp/pos/_chat_pos.py
+++ b/soynlp/pos/_chat_pos.py
@@ -137,7 +137,7 @@ class ChatPOSExtractor(NewsPOSExtractor):
         wrong_stems = find_wrong_stem(predicator_compounds)
         predicator_compounds = delete_predicators_having_wrong_stem(
             predicator_compounds, wrong_stems)
-        stems = {stem for stem in wrong_stems if not (stem in wrong_stems)}
+        stems = {stem for stem in stems if not (stem in wrong_stems)}
         counter = {word:count for word, count in counter.items() if word in predicator_compounds}
         return predicator_compounds, stems, counter
 
-- 
2.43.0


From c5921b4dec0b5bc13ab785cedc78777e8be85e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 52/58] fix: POS extractor statistics for an empty corpus

---
 soynlp/pos/_news_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index b6b95ee..b9038f0 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -391,7 +391,7 @@ class NewsPOSExtractor:
 
         print('\n[POS Extractor] ## statistics')
 
-        as_percent = lambda dic: 100 * sum(dic.values()) / total_frequency
+        as_percent = lambda dic: 100 * sum(dic.values()) / total_frequency if total_frequency else 0
 
         stats = [
             (len(nouns), as_percent(nouns), 'Noun + [Josa/Predicator]'),
-- 
2.43.0


From 2b31d0ebee80dcb882dbfae411de3477d12a5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 53/58] fix: StemExtractor drops the stems it finds with known
 endings and keeps the others

---
 soynlp/predicator/_stem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..6caa0f1 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -254,7 +254,7 @@ class StemExtractor:
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-                        if eomi in self.eomis:
+                        if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
                             freq0, score0, *stems.get(stem, (0, 0)))
-- 
2.43.0


From a3708bbf4a0fe6ab25fb1790accd85c225a235cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 54/58] fix: frequency and score of extracted stems are swapped

---
 soynlp/predicator/_stem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index 6caa0f1..b81d2ab 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,14 +250,14 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, _) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
                         if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
-                            freq0, score0, *stems.get(stem, (0, 0)))
+                            count, score0, *stems.get(stem, (0, 0)))
                 except:
                     continue
 
-- 
2.43.0


From 31a6a770e51b3cf1a6e0a90d2ba901545079e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 55/58] fix: postagger.POSExtractor passes arguments that its
 extractors do not accept

---
 soynlp/postagger/_pos_extractor.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/soynlp/postagger/_pos_extractor.py b/soynlp/postagger/_pos_extractor.py
index 07b3869..ed43610 100644
--- a/soynlp/postagger/_pos_extractor.py
+++ b/soynlp/postagger/_pos_extractor.py
@@ -39,23 +39,22 @@ class POSExtractor:
     def _extract_nouns(self, sentences):
 
         noun_extractor = LRNounExtractor_v2(
-            l_max_length = self.l_max_length,
-            r_max_length = self.r_max_length,
-            min_eojeol_count = 2,
+            max_left_length = self.l_max_length,
+            max_right_length = self.r_max_length,
             min_num_of_features = 2,
-            max_count_when_noun_is_eojeol = 15,
+            max_frequency_when_noun_is_eojeol = 15,
             extract_compound = False,
             logpath = self.logpath,
             extract_pos_feature = True,
             verbose = self.verbose
         )
 
-        noun_extractor.train(sentences)
+        noun_extractor.train(sentences, min_eojeol_frequency=2)
 
         nouns = noun_extractor.extract(
             reset_lrgraph = False,
-            min_count = 10,
-            minimum_noun_score = 0.4,
+            min_noun_frequency = 10,
+            min_noun_score = 0.4,
         )
 
         self._lrgraph = LRGraph(
@@ -69,7 +68,7 @@ class POSExtractor:
 
         if self.verbose:
             message = 'noun extraction was done. {} % eojeols are covered'.format(
-                '%.2f' % (100 * self._num_of_covered_eojeols / self._num_of_eojeols))
+                '%.2f' % (100 * self._num_of_covered_eojeols / max(1, self._num_of_eojeols)))
             self._print(message, replace=True, newline=True)
 
         return nouns
@@ -83,10 +82,8 @@ class POSExtractor:
             verbose = self.verbose
         )
 
-        predicator_extractor.train(sentences_or_lrgraph, min_eojeol_count=2)
-
-        predicators = predicator_extractor.extract(
-            candidates=None, min_count=10, reset_lrgraph=True,
+        predicator_extractor.train(
+            sentences_or_lrgraph, min_eojeol_frequency=2,
             # Eomi extractor
             min_num_of_features=5, min_eomi_score=0.3, min_eomi_frequency=1,
             # Stem extractor
@@ -94,13 +91,16 @@ class POSExtractor:
             min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100
         )
 
+        predicators = predicator_extractor.extract(
+            candidates=None, min_predicator_frequency=10)
+
         self._num_of_covered_eojeols += predicator_extractor._num_of_covered_eojeols
 
         self.predicator_extractor = predicator_extractor
 
         if self.verbose:
             message = 'predicator extraction was done. {} % eojeols are covered (cum)'.format(
-                '%.2f' % (100 * self._num_of_covered_eojeols / self._num_of_eojeols))
+                '%.2f' % (100 * self._num_of_covered_eojeols / max(1, self._num_of_eojeols)))
             self._print(message, replace=True, newline=True)
 
         return predicators
\ No newline at end of file
-- 
2.43.0


From af3091f2bad9fa71dbd34a6da711ba4f446511a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 56/58] fix: MaxLRScoreTokenizer compares R with the L score of
 the words that begin in it

_score appended the total score to the same list that begin_to_words
holds, so for every candidate scored earlier word[-2] was its R score.
---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 785b460..52da23e 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -396,8 +396,8 @@ class MaxLRScoreTokenizer:
                     continue
 
             total_score = (score_l * 2 if not r else score_l + score_r) + self.Pl.get(l, 0) + self.Pr.get(r, 0)
-            c.append(total_score)
-            scored.append(c)
+            # a new list: the candidates in begin_to_words keep their indices
+            scored.append(c + [total_score])
         return scored
 
     def _find_best(self, scores):
-- 
2.43.0


From 2aca642c3b777728c81b5cb748087eeb8cc17a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 57/58] fix: lemma_candidate prints predefined lemmas in debug
 mode without failing

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 3379f41..61faa03 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -226,7 +226,7 @@ def lemma_candidate(l, r, predefined=None, debug=False):
         for stem in predefined[(l, r)]:
             candidates.add(stem)
             if debug:
-                debug_message('Predefined', l_stem, r_canon)
+                debug_message('Predefined', *stem)
 
     # check whether lemma is conjugatable
     candidates_ = set()
-- 
2.43.0


From 0c7a92d7640c7d183a17f9324876d334df150f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:11 +0000
Subject: [PATCH 58/58] fix: NewsNounExtractor.extract returned its internal
 noun dictionary, so a caller's changes to the result changed later
 extractions

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index a518bd8..663d5c4 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -155,7 +155,7 @@ class NewsNounExtractor:
         del self._noun_scores_
         del self._noun_scores_postprocessed
 
-        return self.noun_dictionary
+        return dict(self.noun_dictionary)
 
     def _pre_eojeol_analysis(self, min_frequency=3, min_eojeol_proportion=0.99):
         def eojeol_to_NV(l, max_eojeol_proportion=0.5, min_noun_score=0.4):
-- 
2.43.0

