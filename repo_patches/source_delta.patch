From bd66239fe6ea326c1129b3a016d484b7a17252e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 01/78] fix: add every unigram and bigram of any iterable when
 training on bigrams

---
 sbclassifier/classifiers/basic.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..c0324a1 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -41,7 +41,6 @@ of scores, and good cutoff values aren't touchy).
 This implementation is due to Tim Peters et alia.
 
 """
-import itertools
 import math
 
 #: The natural logarithm of two; this is used frequently by a function
@@ -339,15 +338,14 @@ class Classifier:
         removed, too.
 
         """
-        # For the sake of brevity, create an alias.
-        chain = itertools.chain.from_iterable
-        # Create an iterable of bigrams from `wordstream`.
-        bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
-        # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        # `wordstream` may be any iterable (for example the generator returned
+        # by the tokenizer), so it must be traversed only once.
+        for i, token in enumerate(wordstream):
+            yield token
+            if i:   # not the 1st loop trip, so there is a preceding token
+                # This string interpolation must match the one in _getclues().
+                yield BIGRAM_FORMAT.format(last_token, token)
+            last_token = token
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From fbfaddc323fa620b0ce085483854860a2e77b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 02/78] fix: make bigrams of bytes tokens comparable with the
 tokens themselves

---
 sbclassifier/classifiers/basic.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index c0324a1..3f6b83c 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -52,6 +52,20 @@ PICKLE_VERSION = 5
 #: The format string for creating a token from a bigram.
 BIGRAM_FORMAT = 'bi:{} {}'
 
+
+def make_bigram(first, second):
+    """Returns the bigram token for two adjacent tokens.
+
+    The bigram of two tokens of type ``bytes`` (such as those generated by the
+    tokenizer) is itself of type ``bytes``, so that it can be compared with the
+    tokens from which it was made.
+
+    """
+    if isinstance(first, bytes) and isinstance(second, bytes):
+        return b'bi:' + first + b' ' + second
+    return BIGRAM_FORMAT.format(first, second)
+
+
 #: Generate both unigrams (words) and bigrams (pairs of words). However,
 #: extending an idea originally from Gary Robinson, the message is 'tiled' into
 #: non-overlapping unigrams and bigrams, approximating the strongest outcome
@@ -343,8 +357,8 @@ class Classifier:
         for i, token in enumerate(wordstream):
             yield token
             if i:   # not the 1st loop trip, so there is a preceding token
-                # This string interpolation must match the one in _getclues().
-                yield BIGRAM_FORMAT.format(last_token, token)
+                # This must match the bigram made in _getclues().
+                yield make_bigram(last_token, token)
             last_token = token
 
     def probability(self, record):
@@ -526,9 +540,9 @@ class Classifier:
             seen = set()
             for i, token in enumerate(wordstream):
                 if i:   # not the 1st loop trip, so there is a preceding token
-                    # This string interpolation must match the one in
+                    # This must match the bigram made in
                     # _enhance_wordstream().
-                    pair = BIGRAM_FORMAT.format(last_token, token)
+                    pair = make_bigram(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
                     if clue not in seen:    # as always, skip duplicates
-- 
2.43.0


From fa1e2d57f26758683a043c0e599e232895588f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 03/78] fix: do not look up a bigram before the first token

---
 sbclassifier/classifiers/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 3f6b83c..12c0110 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -545,7 +545,8 @@ class Classifier:
                     pair = make_bigram(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
-                    if clue not in seen:    # as always, skip duplicates
+                    # As always, skip duplicates. The first token has no pair.
+                    if clue is not None and clue not in seen:
                         seen.add(clue)
                         tup = self._worddistanceget(clue)
                         if tup[0] >= MINIMUM_PROB_STRENGTH:
-- 
2.43.0


From 23e5e342dbd729d4606723d42986dc922796d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 04/78] fix: keep the bigram setting of a pickled classifier

---
 sbclassifier/classifiers/basic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 12c0110..b75bc31 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -201,12 +201,15 @@ class Classifier:
         self.nham = 0
 
     def __getstate__(self):
-        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham,
+                self._use_bigrams)
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
-            raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
-        self.wordinfo, self.nspam, self.nham = t[1:]
+            raise ValueError("Can't unpickle; version {} unknown".format(t[0]))
+        self.wordinfo, self.nspam, self.nham = t[1:4]
+        # Pickles written by earlier versions do not include this setting.
+        self._use_bigrams = t[4] if len(t) > 4 else USE_BIGRAMS
         self._probcache = {}
 
     # Implementation note: Across vectors of length n, containing random
-- 
2.43.0


From 93c9eecbcaac6e054de39484b3b65471efce4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 05/78] fix: do not mistake a pickle that cannot be read for a
 new one

---
 sbclassifier/classifiers/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..1257256 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -154,11 +154,12 @@ class PickleClassifier(StoredClassifierBase):
         # tempbayes object is reclaimed when load() returns.
         logging.debug('Loading state from %s pickle', self.filename)
 
-        try:
+        if os.path.exists(self.filename):
             tempbayes = pickle_read(self.filename)
-        except:
+        else:
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
+            self._probcache = {}
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
-- 
2.43.0


From e96c4ca043ffff25e820694960ce953a2b1999eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 06/78] fix: replace the previous pickle atomically, leaving no
 temporary file

---
 sbclassifier/safepickle.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..cadc935 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -29,6 +29,14 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
         # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
-            pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        # The temporary file must be in the same directory, so that it can
+        # replace the previous data in a single step.
+        directory = os.path.dirname(os.path.abspath(filename))
+        with NamedTemporaryFile(dir=directory, delete=False) as fp:
+            try:
+                pickle.dump(value, fp, protocol)
+                fp.flush()
+                os.replace(fp.name, filename)
+            except BaseException:
+                os.remove(fp.name)
+                raise
-- 
2.43.0


From c752c62f799d811c9475545bc129038565870dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 07/78] fix: forget cached probabilities and close the old
 shelf when reloading

---
 sbclassifier/classifiers/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 1257256..cddc50f 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -207,7 +207,13 @@ class ShelveClassifier(StoredClassifierBase):
         #     self.db = shelve.Shelf(self.dbm)
         #
         # Does having a shelved DBM afford any benefit over just a shelf?
+        #
+        # If the database is already open, then it must be closed before it is
+        # opened again, so that it is read as last written.
+        if hasattr(self, 'db'):
+            self.db.close()
         self.db = shelve.open(self.filename, self.flag)
+        self._probcache = {}
         if self.statekey in self.db:
             t = self.db[self.statekey]
             if t[0] != PICKLE_VERSION:
-- 
2.43.0


From 922d58a88a125cb6b2fe2952579c55ed460fa8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 08/78] fix: let a shelved classifier store the bytes tokens of
 the tokenizer

---
 sbclassifier/classifiers/storage.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index cddc50f..5bd8eb4 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -241,7 +241,7 @@ class ShelveClassifier(StoredClassifierBase):
         # the naive way.
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[self._key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -249,7 +249,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[self._key(word)]
             except KeyError:
                 pass
 
@@ -269,6 +269,15 @@ class ShelveClassifier(StoredClassifierBase):
         key."""
         self._write_state_key()
 
+    def _key(self, word):
+        """Returns the database key under which `word` is stored.
+
+        The keys of a shelf must be strings, but the tokens generated by the
+        tokenizer are of type ``bytes``.
+
+        """
+        return word.decode('latin-1') if isinstance(word, bytes) else word
+
     def _wordinfoget(self, word):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
@@ -280,7 +289,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(self._key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -306,7 +315,7 @@ class ShelveClassifier(StoredClassifierBase):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[self._key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
-- 
2.43.0


From 8ca6270b4c975d4f1a37b30abb9d8b05277d54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 09/78] fix: keep a word that equals the state key apart from
 the state of a shelf

---
 sbclassifier/classifiers/storage.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 5bd8eb4..abd95d0 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -273,10 +273,14 @@ class ShelveClassifier(StoredClassifierBase):
         """Returns the database key under which `word` is stored.
 
         The keys of a shelf must be strings, but the tokens generated by the
-        tokenizer are of type ``bytes``.
+        tokenizer are of type ``bytes``. A word that equals the state key is
+        escaped, so that it doesn't replace the state of the classifier.
 
         """
-        return word.decode('latin-1') if isinstance(word, bytes) else word
+        key = word.decode('latin-1') if isinstance(word, bytes) else word
+        if key.lstrip('\0') == self.statekey:
+            key = '\0' + key
+        return key
 
     def _wordinfoget(self, word):
         # if isinstance(word, unicode):
@@ -340,9 +344,9 @@ class ShelveClassifier(StoredClassifierBase):
         self.deleted_words.add(word)
 
     def _wordinfokeys(self):
-        wordinfokeys = list(self.db.keys())
-        del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        # A key that ends with the state key is an escaped word; see _key().
+        return [key[1:] if key.lstrip('\0') == self.statekey else key
+                for key in self.db.keys() if key != self.statekey]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From 1aba7660d65209ad6ee232b28646ae2ff6d78da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 10/78] fix: read and write the keys and values of a CDB as
 bytes

---
 sbclassifier/cdb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..671333c 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -26,11 +26,16 @@ def uint32_pack(n):
 CDB_HASHSTART = 5381
 
 
+def to_bytes(s):
+    """Returns the bytes under which the string `s` is stored."""
+    return s if isinstance(s, bytes) else bytes(s, 'utf-8')
+
+
 def cdb_hash(buf):
     h = CDB_HASHSTART
-    for c in buf:
+    for c in to_bytes(buf):
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
@@ -110,6 +115,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +176,11 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key, value = to_bytes(key), to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From ebfa9d7f827500b4f43246edaf0ac6a6126f045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 11/78] fix: load and store the database of a CDB classifier

---
 sbclassifier/classifiers/storage.py | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index abd95d0..2be7295 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -51,20 +51,16 @@ import os
 # import tempfile
 # import errno
 import shelve
+from tempfile import NamedTemporaryFile
+
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier.cdb import Cdb
+from sbclassifier.cdb import cdb_make
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
-
 
 # A little magic.  We'd like to use ZODB as the default storage,
 # because we've had so many problems with bsddb, and we'd like to swap
@@ -642,7 +638,12 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+            with open(self.filename, 'rb') as f:
+                db = Cdb(f)
+                data = {k.decode('utf-8'): v.decode('utf-8')
+                        for k, v in db.items()}
+                db.close()
+            self._probcache = {}
             self.nham, self.nspam = [int(i) for i in
                                      data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
@@ -655,6 +656,7 @@ class CDBClassifier(StoredClassifierBase):
                           self.filename, self.nham, self.nspam)
         else:
             logging.debug('%s is a new CDB', self.filename)
+            self._probcache = {}
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
@@ -663,7 +665,16 @@ class CDBClassifier(StoredClassifierBase):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
         items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        # Write the whole database before replacing the previous one.
+        directory = os.path.dirname(os.path.abspath(self.filename))
+        with NamedTemporaryFile(dir=directory, delete=False) as f:
+            try:
+                cdb_make(f, items)
+                f.flush()
+                os.replace(f.name, self.filename)
+            except BaseException:
+                os.remove(f.name)
+                raise
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
-- 
2.43.0


From fcb1c6f4cf4ae967456da23a9805e49141a9f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 12/78] fix: do not swap the ham and spam counts when loading a
 CDB

---
 sbclassifier/classifiers/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2be7295..eb8a68f 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -649,7 +649,9 @@ class CDBClassifier(StoredClassifierBase):
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
+            # The ham count is stored before the spam count.
+            from_string = lambda s: WordInfo(*(int(n) for n in
+                                               reversed(s.split(','))))
             self.wordinfo = {k: from_string(v) for k, v in data.items()
                              if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
-- 
2.43.0


From 26fd48b127ede173a83754fe1fcc44d695d547ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 13/78] fix: keep bytes words and the state of a CDB classifier
 apart

---
 sbclassifier/classifiers/storage.py | 35 ++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index eb8a68f..c6a2042 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -113,6 +113,19 @@ STATE_KEY = 'saved state'
 
 class StoredClassifierBase(Classifier):
 
+    def _key(self, word):
+        """Returns the database key under which `word` is stored.
+
+        The keys of a database must be strings, but the tokens generated by
+        the tokenizer are of type ``bytes``. A word that equals the state key is
+        escaped, so that it doesn't replace the state of the classifier.
+
+        """
+        key = word.decode('latin-1') if isinstance(word, bytes) else word
+        if key.lstrip('\0') == self.statekey:
+            key = '\0' + key
+        return key
+
     def load(self):
         pass
 
@@ -265,19 +278,6 @@ class ShelveClassifier(StoredClassifierBase):
         key."""
         self._write_state_key()
 
-    def _key(self, word):
-        """Returns the database key under which `word` is stored.
-
-        The keys of a shelf must be strings, but the tokens generated by the
-        tokenizer are of type ``bytes``. A word that equals the state key is
-        escaped, so that it doesn't replace the state of the classifier.
-
-        """
-        key = word.decode('latin-1') if isinstance(word, bytes) else word
-        if key.lstrip('\0') == self.statekey:
-            key = '\0' + key
-        return key
-
     def _wordinfoget(self, word):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
@@ -663,6 +663,15 @@ class CDBClassifier(StoredClassifierBase):
             self.nham = 0
             self.nspam = 0
 
+    def _wordinfoget(self, word):
+        return super()._wordinfoget(self._key(word))
+
+    def _wordinfoset(self, word, record):
+        super()._wordinfoset(self._key(word), record)
+
+    def _wordinfodel(self, word):
+        super()._wordinfodel(self._key(word))
+
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
         items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
-- 
2.43.0


From 05bd60fbc17aef3ca8f9fd80881af98e993d69c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 14/78] fix: do not count a message put twice in a cache as two
 entries

---
 sbclassifier/corpora/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..41b83ba 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -87,9 +87,10 @@ class NaiveCache(Cache):
 
     def put(self, key, value):
         logging.debug('Caching %s', key)
-        self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self.data:
+            self._keys.append(key)
+        self.data[key] = value
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From c28319fe2559d2a55ef9327c67aeae978e1c7082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 15/78] fix: do not delete the file of a message evicted from
 the memory cache

---
 sbclassifier/corpora/caches.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 41b83ba..ad7bf9e 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -95,12 +95,13 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            self.flush(key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
 
-    def pop(self, key):
+    def flush(self, key):
+        """Removes the entry with the specified key from memory."""
         logging.debug('Flushing %s from cache', key)
         try:
             ki = self._keys.index(key)
@@ -111,6 +112,9 @@ class NaiveCache(Cache):
         # TODO should this set the key to None, or remove it entirely?
         return self.data.pop(key, None)
 
+    def pop(self, key):
+        return self.flush(key)
+
 
 class FileCache(NaiveCache):
     # This is essentially a two-level cache: one level is the dictionary in
-- 
2.43.0


From eee5999893e0d1f6d4d3ef5bcd0c5ecb9267f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 16/78] fix: count the messages currently in the directory of a
 file corpus

---
 sbclassifier/corpora/caches.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index ad7bf9e..7190083 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -125,9 +125,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -137,7 +134,7 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        return sum(1 for key in self.keys())
 
     def __iter__(self):
         return self.keys()
-- 
2.43.0


From 693682c0ba983c53724c76045d8c495b12373d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 17/78] fix: set the ID of a message read from the directory of
 a file corpus

---
 sbclassifier/corpora/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7190083..32ef1f4 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -143,7 +143,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
-- 
2.43.0


From 538afbe16964baed7a8ecb17ac2c80e0c14e27fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 18/78] fix: provide the items of a corpus

---
 sbclassifier/corpora/caches.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 32ef1f4..6a600c1 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -40,6 +40,9 @@ class Cache:
     def values(self):
         raise NotImplemented
 
+    def items(self):
+        raise NotImplemented
+
     def put(self, key, value):
         raise NotImplemented
 
@@ -85,6 +88,9 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         # Here is where we manage the in-memory cache size...
@@ -153,6 +159,10 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self._message_from_path(f, message_id=f))
+                for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
-- 
2.43.0


From c52c9d6418a7737b5131820f6becb44418ee23c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 19/78] fix: leave no empty file behind for a message that
 cannot be stored

---
 sbclassifier/corpora/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 6a600c1..0d1ebf2 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -168,10 +168,12 @@ class FileCache(NaiveCache):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
+        # If the message cannot be converted to bytes, then store nothing.
+        data = value.as_bytes()
         super().put(key, value)
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(value.as_bytes())
+            f.write(data)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From 317e46c943f6a764f5ca0b430863a2e7c1138feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 20/78] fix: keep a file corpus within its directory and its
 name filter

---
 sbclassifier/corpora/caches.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 0d1ebf2..1547b86 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -132,10 +132,17 @@ class FileCache(NaiveCache):
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
 
-    def _is_message(self, filename):
-        return (os.path.isfile(os.path.join(self.directory, filename))
+    def _is_message_name(self, filename):
+        # A message ID may come from a message header, so it must not be
+        # allowed to name a file outside the directory.
+        return (os.path.basename(filename) == filename
+                and filename not in (os.curdir, os.pardir)
                 and fnmatch.fnmatch(filename, self.namefilter))
 
+    def _is_message(self, filename):
+        return (self._is_message_name(filename)
+                and os.path.isfile(os.path.join(self.directory, filename)))
+
     def _message_from_path(self, filename, *args, **kw):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
@@ -164,7 +171,7 @@ class FileCache(NaiveCache):
                 for f in self.keys())
 
     def put(self, key, value):
-        if not fnmatch.fnmatch(key, self.namefilter):
+        if not self._is_message_name(key):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
@@ -183,6 +190,9 @@ class FileCache(NaiveCache):
 
     def pop(self, key):
         result = super().pop(key)
+        if not self._is_message_name(key):
+            # There can be no such message in this directory.
+            return result
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
         try:
-- 
2.43.0


From 93a214f33ea0519595ece9080cfde83c96464f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 21/78] fix: do not replace an empty cache given to a corpus

---
 sbclassifier/corpora/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..a9a329a 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,8 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        self.message_cache = (cache if cache is not None
+                              else NaiveCache(max_size=INFINITY))
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From 94081545c6ae57da0d5887d9f49235395cc0bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 22/78] fix: represent a file corpus as a string

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..b701e87 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -63,12 +63,13 @@ class FileCorpus(Corpus):
     def __init__(self, directory, namefilter='*', cache_size=256):
         cache = FileCache(directory, namefilter, max_size=cache_size)
         super().__init__(cache=cache)
+        self.directory = directory
 
     def __repr__(self):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
-        lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
-        return ('<{} object at {:8.8x}, directory: {},'
+        lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
+        return ('<{} object at {:08x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.directory, nummsgs, s, lst)
 
-- 
2.43.0


From 49c502219316ba6fd23b076f54ffdff62ed06e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 23/78] fix: remove expired messages from a file corpus

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index b701e87..45eea76 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -96,11 +96,12 @@ class ExpiryFileCorpus(FileCorpus):
         # during the loop.
         for key in list(self.keys()):
             msg = self[key]
-            timestamp = msg.createTimestamp()
+            timestamp = os.path.getmtime(os.path.join(self.directory, key))
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                # An expired message has not become any less trained.
+                self.remove_message(msg, emit_signal=False)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
-- 
2.43.0


From d2496b0a0b1812282dc8e25685880a8edcf3d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 24/78] fix: untrain, rather than train again, a message
 removed from a corpus

---
 sbclassifier/trainers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..e1a752a 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
-- 
2.43.0


From f9a6c9a60239b64ed21a20e134ec90fb8ec6a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 25/78] fix: use the ID of a message when training and
 untraining

---
 sbclassifier/trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index e1a752a..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From d92a848d215d7f4ef89829525ae82250c294f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 26/78] fix: copy the whole message, so that it can be
 flattened

---
 sbclassifier/message.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..bad9cf5 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -72,6 +72,7 @@ To Do:
 __author__ = "Tim Stone <tim@fourstonesExpressions.com>"
 __credits__ = "Mark Hammond, Tony Meyer, all the spambayes contributors."
 
+import copy
 import email
 from email.generator import Generator
 from email.header import Header
@@ -324,6 +325,14 @@ class Message(_Message):
     def __setstate__(self, t):
         (self.messageid, self.c, self.t) = t
 
+    def __deepcopy__(self, memo):
+        # Unlike the persistent state, a copy includes the whole message. (The
+        # email package copies a message in order to flatten it.)
+        result = self.__class__.__new__(self.__class__)
+        memo[id(self)] = result
+        result.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return result
+
     # def setPayload(self, payload):
     #     """DEPRECATED.
     #     """
-- 
2.43.0


From 17f8301ff6f7885e11d640ad0fefd5764e2bfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 27/78] fix: do not swap the To and Subject notations to remove

---
 sbclassifier/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index bad9cf5..e55b949 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -567,7 +567,8 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_to_notations=remove_to_notations,
+                              remove_subject_notations=remove_subject_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From c24930106bdf1704a5c0c9847b004b16bc9393e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 28/78] fix: notate headers that contain raw non-ASCII bytes

---
 sbclassifier/message.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e55b949..e2deccf 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -465,6 +465,20 @@ class Message(_Message):
 
         self.add_notations(notate_to or (), notate_subject or ())
 
+    def _raw_header(self, name):
+        """Returns the value of the specified header as it is stored, or
+        ``None`` if there is no such header.
+
+        Unlike ``self[name]``, this is a string even if the header contains
+        bytes that are not ASCII characters, so it can be modified without
+        losing them.
+
+        """
+        for key, value in self.raw_items():
+            if key.lower() == name.lower():
+                return value if isinstance(value, str) else value.encode()
+        return None
+
     def add_notations(self, notate_to, notate_subject):
         """Add the appropriate string to the subject: and/or to: header.
 
@@ -489,7 +503,8 @@ class Message(_Message):
             # to an invalid address, and add that.
             address = "{}@spambayes.invalid".format(self.c.name)
             try:
-                self.replace_header("To", "{},{}".format(address, self["To"]))
+                self.replace_header("To", "{},{}".format(address,
+                                                     self._raw_header("To")))
             except KeyError:
                 self["To"] = address
 
@@ -497,8 +512,9 @@ class Message(_Message):
         #     notate_subject = (notate_subject,)
         if self.c in notate_subject:
             try:
+                subject = self._raw_header("Subject")
                 self.replace_header("Subject", "%s,%s" % (self.c.name,
-                                                          self["Subject"]))
+                                                          subject))
             except KeyError:
                 self["Subject"] = self.c.name
 
@@ -516,7 +532,7 @@ class Message(_Message):
         See also [ 848365 ] Remove subject annotations from message review
                             page
         """
-        subject = self["Subject"]
+        subject = self._raw_header("Subject")
         if subject:
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
@@ -527,7 +543,7 @@ class Message(_Message):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
                         break
-        to = self["To"]
+        to = self._raw_header("To")
         if to:
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
-- 
2.43.0


From 6e0a3be012313a3740a8a8b20cb6442a51fabbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 29/78] fix: remove the notation from a message that had no To
 or Subject header

---
 sbclassifier/message.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e2deccf..cb1355e 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -539,6 +539,10 @@ class Message(_Message):
             unsure = Classification.unsure.name + ','
             if remove_subject_notations:
                 for disp in (ham, spam, unsure):
+                    if subject == disp[:-1]:
+                        # We added the header along with the notation.
+                        del self["Subject"]
+                        break
                     if subject.startswith(disp):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
@@ -550,6 +554,10 @@ class Message(_Message):
             unsure = "%s@spambayes.invalid," % (Classification.unsure.name,)
             if remove_to_notations:
                 for disp in (ham, spam, unsure):
+                    if to == disp[:-1]:
+                        # We added the header along with the notation.
+                        del self["To"]
+                        break
                     if to.startswith(disp):
                         self.replace_header("To", to[len(disp):])
                         # Only remove one, maximum.
-- 
2.43.0


From dc40fa4b78ef7203f20d46817afea4e1bbc99c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 30/78] fix: ignore a message ID header that is not a valid
 string

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index cb1355e..4e53090 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -346,7 +346,7 @@ class Message(_Message):
     def set_id_from_payload(self):
         try:
             self.set_id(self[MAILID_HEADER_NAME])
-        except ValueError:
+        except (TypeError, ValueError):
             return None
         return self.messageid
 
-- 
2.43.0


From c7d17b6d3e0e0dc4491fc014de6cd708ae64a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 31/78] fix: do not add an ID header without value to a message
 that has no ID

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 4e53090..18613d2 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -460,7 +460,7 @@ class Message(_Message):
                         lineLength = 8
             self[headerName] = "".join(wrappedEvd)
 
-        if add_unique_id:
+        if add_unique_id and self.messageid is not None:
             self[MAILID_HEADER_NAME] = self.messageid
 
         self.add_notations(notate_to or (), notate_subject or ())
-- 
2.43.0


From d5b12feab350bf459a68bacc852bf3c07d0defbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 32/78] fix: insert an exception header for any exception
 message

---
 sbclassifier/message.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 18613d2..c7054b3 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -610,7 +610,12 @@ def insert_exception_header(string_msg, msg_id=None):
 
     # Build the header.  This will strip leading whitespace from
     # the lines, so we add a leading space to maintain indentation.
-    detailLines = details.strip().split('\n')
+    #
+    # A bare carriage return would end the header line, and a surrogate cannot
+    # be encoded.
+    printable = details.strip().replace('\r', '\\r')
+    printable = printable.encode('utf-8', 'backslashreplace').decode('utf-8')
+    detailLines = printable.split('\n')
     spacedDetails = '\n '.join(detailLines)
     headerName = 'X-Spambayes-Exception'
     header = Header(spacedDetails, header_name=headerName)
-- 
2.43.0


From 8421b257bdde95d93b48f3fad1356ae66436a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 33/78] fix: insert an exception header within the headers of a
 message without body

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index c7054b3..2e7e541 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -627,7 +627,7 @@ def insert_exception_header(string_msg, msg_id=None):
         headers, body = re.split(r'\n\r?\n', string_msg, 1)
     except ValueError:
         # No body - this is a bad message!
-        headers = string_msg
+        headers = string_msg.rstrip('\r\n')
         body = ""
     header = re.sub(r'\r?\n', '\r\n', str(header))
     headers += "\n%s: %s\r\n" % (headerName, header)
-- 
2.43.0


From ada1d200c90fc5561ab7366b51c7caa33369bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 34/78] fix: convert tokens that contain surrogates to bytes

---
 sbclassifier/tokenizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..8defacf 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -780,7 +780,10 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            # A token may contain surrogates if the message contains bytes
+            # that could not be decoded.
+            yield (x if isinstance(x, bytes)
+                   else bytes(x, 'utf-8', 'surrogatepass'))
     return converted_f
 
 
-- 
2.43.0


From 520ab353965cf0a7cb86fdb50835b48f8ec2bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 35/78] fix: tokenize long words of both headers and bodies

---
 sbclassifier/tokenizer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 8defacf..624e505 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -811,8 +811,6 @@ def imageparts(msg):
     return [part for part in msg.walk()
             if part.get_content_type().startswith('image/')]
 
-has_highbit_char = re.compile(rb"[\x80-\xff]").search
-
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
 # and crack_html_comment() instead -- they can be very long, and long
@@ -872,10 +870,18 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
     elif n >= 3:
         # A long word.
 
+        # The word may be either a string (from a header) or bytes (from a
+        # body). In the latter case, treat each byte as a single character.
+        if isinstance(word, bytes):
+            for token in tokenize_word(word.decode('latin-1'),
+                                       maxword=maxword):
+                yield token.encode('latin-1')
+            return
+
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
+        if n < 40 and '.' in word and word.count('@') == 1:
             p1, p2 = word.split('@')
             yield 'email name:' + p1
             yield 'email addr:' + p2
@@ -888,11 +894,11 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
             # XXX this info has greater benefit.
             if GENERATE_LONG_SKIPS:
                 yield "skip:%c %d" % (word[0], n // 10 * 10)
-            if has_highbit_char(word):
-                hicount = 0
-                for i in map(ord, word):
-                    if i >= 128:
-                        hicount += 1
+            hicount = 0
+            for i in map(ord, word):
+                if i >= 128:
+                    hicount += 1
+            if hicount:
                 yield "8bit%%:%d" % round(hicount * 100.0 / len(word))
 
 # Generate tokens for:
-- 
2.43.0


From 9a6c012cef54303ece6722a81ee0020fd68006da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 36/78] fix: decode the encoded words of Subject and address
 headers

---
 sbclassifier/tokenizer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 624e505..d9c4b5b 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -787,6 +787,19 @@ def convert_to_bytes(f):
     return converted_f
 
 
+def decode_chunk(chunk, charset):
+    """Returns the text of one of the pairs generated by
+    :func:`email.header.decode_header`.
+
+    """
+    if not isinstance(chunk, bytes):
+        return str(chunk)
+    try:
+        return chunk.decode(charset or 'ascii')
+    except (LookupError, ValueError):
+        return chunk.decode('latin-1')
+
+
 # textparts(msg) returns a set containing all the text components of msg.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
@@ -1238,7 +1251,7 @@ class Tokenizer:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
             # <= 2.3.4 and 2.4.0 (fixed in 2.5)
-            x = x.replace('\r', ' ')
+            x = decode_chunk(x, subjcharset).replace('\r', ' ')
             for w in subject_word_re.findall(x):
                 for t in tokenize_word(w):
                     yield 'subject:' + t
@@ -1270,6 +1283,7 @@ class Tokenizer:
                             ValueError):
                         subjcharsetlist = [(name, 'invalid')]
                     for name, charset in subjcharsetlist:
+                        name = decode_chunk(name, charset)
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
-- 
2.43.0


From b925ec55f47f2720a14334c9014091360f8caf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 37/78] fix: tokenize headers that contain raw non-ASCII bytes

---
 sbclassifier/strippers.py |  2 +-
 sbclassifier/tokenizer.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..ca4dd63 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -126,7 +126,7 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index d9c4b5b..37ea9a8 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1194,7 +1194,7 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
+                    for w in subject_word_re.findall(str(v)):
                         for t in tokenize_word(w):
                             yield "%s:%s" % (k, t)
             if basic_header_tokenize_only:
@@ -1371,7 +1371,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1381,7 +1381,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1391,7 +1391,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1413,7 +1413,7 @@ class Tokenizer:
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
         msgid = msg.get("message-id", "")
-        m = message_id_re.match(msgid)
+        m = message_id_re.match(str(msgid))
         if m:
             # looks okay, return the hostname
             yield 'message-id:@%s' % m.group(1)
-- 
2.43.0


From ebd582450dcad0357c2d31ac5c7ff6caaeb03fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 38/78] fix: tokenize the type of a part encoded as described
 by RFC 2231

---
 sbclassifier/strippers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index ca4dd63..9b29381 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+from email.utils import collapse_rfc2231_value
 import math
 import re
 import urllib
@@ -112,7 +113,8 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
-        yield 'content-type/type:' + x.lower()
+        # The value is a tuple if it is encoded as described by RFC 2231.
+        yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
 
     try:
         for x in msg.get_charsets(None):
-- 
2.43.0


From e462c0faf7b867c7ec7ee2a063e7860f6816e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 39/78] fix: strip HTML tags and entities from the bytes of a
 body

---
 sbclassifier/tokenizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 37ea9a8..8fe045e 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1114,9 +1114,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
-    except:
-        return '?'
+        return chr(int(m.group(1))).encode('utf-8')
+    except (OverflowError, ValueError):
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1553,7 +1553,7 @@ class Tokenizer:
                 text = text.translate(non_ascii_translate_tab)
 
             for t in find_html_virus_clues(text):
-                yield "virus:%s" % t
+                yield b"virus:" + t
 
             # Get rid of uuencoded sections, embedded URLs, <style gimmicks,
             # and HTML comments.
@@ -1568,7 +1568,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1576,7 +1576,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From 37c3d26cda80c10fa6099ee2335e96d4597d2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 40/78] fix: tokenize a payload that cannot be decoded

---
 sbclassifier/tokenizer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 8fe045e..294f5e3 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1034,6 +1034,12 @@ base64_re = re.compile(r"""
 """, re.VERBOSE)
 
 
+def payload_bytes(text):
+    """Returns the bytes of an undecoded payload."""
+    return (text if isinstance(text, bytes)
+            else text.encode('utf-8', 'surrogatepass'))
+
+
 def try_to_repair_damaged_base64(text):
     i = 0
     while True:
@@ -1045,15 +1051,15 @@ def try_to_repair_damaged_base64(text):
         if m.group(1):
             # This line has a trailing '=' -- the base64 part is done.
             break
-    base64text = ''
+    base64text = b''
     if i:
         base64 = text[:i]
         try:
             base64text = binascii.a2b_base64(base64)
-        except:
+        except ValueError:
             # There's no point in tokenizing raw base64 gibberish.
             pass
-    return base64text + text[i:]
+    return base64text + payload_bytes(text[i:])
 
 
 def breakdown_host(host):
@@ -1494,7 +1500,7 @@ class Tokenizer:
                     yield "control: octet payload is None"
                     continue
 
-                yield "octet:%s" % text[:OCTET_PREFIX_SIZE]
+                yield b"octet:" + payload_bytes(text)[:OCTET_PREFIX_SIZE]
 
         parts = imageparts(msg)
         if IMAGE_SIZE:
-- 
2.43.0


From 877cfa9d346561890eabfe6f8232db68369cbafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 41/78] fix: crack the names of attachments and of uuencoded
 files

---
 sbclassifier/strippers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 9b29381..67fa4d5 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -52,7 +52,9 @@ html_style_start_re = re.compile(rb"""
 
 urlsep_re = re.compile(rb"[;?:@&=+,$.]")
 
-fname_sep_re = re.compile(rb'[/\\:]')
+fname_sep_re = re.compile(r'[/\\:]')
+
+fname_piece_re = re.compile(r"[;?:@&=+,$.]")
 
 url_fancy_re = re.compile(rb"""
     \b                      # the preceeding character must not be alphanumeric
@@ -102,7 +104,7 @@ def crack_filename(fname):
     for component in components:
         if morethan1:
             yield "fname comp:" + component
-        pieces = urlsep_re.split(component)
+        pieces = fname_piece_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
                 yield "fname piece:" + piece
@@ -216,9 +218,11 @@ class UUencodeStripper(Stripper):
                           uuencode_end_re.search)
 
     def tokenize(self, m):
-        mode, fname = m.groups()
-        return (['uuencode mode:%s' % mode] +
-                ['uuencode:%s' % x for x in crack_filename(fname)])
+        # Treat each byte as a single character.
+        mode, fname = (x.decode('latin-1') for x in m.groups())
+        return [x.encode('latin-1') for x in
+                ['uuencode mode:%s' % mode] +
+                ['uuencode:%s' % x for x in crack_filename(fname)]]
 
 
 class URLStripper(Stripper):
-- 
2.43.0


From 1018f242575a3b33a6da1fdd4fa1daa9ee83bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 42/78] fix: tokenize content headers that cannot be decoded

---
 sbclassifier/strippers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 67fa4d5..88c22d8 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -116,13 +116,17 @@ def crack_content_xyz(msg):
     x = msg.get_param('type')
     if x is not None:
         # The value is a tuple if it is encoded as described by RFC 2231.
-        yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
+        try:
+            yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
+        except ValueError:
+            # The value cannot be decoded.
+            yield 'content-type/type:<bogus>'
 
     try:
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except UnicodeEncodeError:
+    except ValueError:
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
@@ -137,7 +141,7 @@ def crack_content_xyz(msg):
         if fname is not None:
             for x in crack_filename(fname):
                 yield 'filename:' + x
-    except TypeError:
+    except (TypeError, ValueError):
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
         # and
-- 
2.43.0


From 6abbed984fb6947be9fa183e6d0895cc286e7b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 43/78] fix: lose the trailing punctuation of a URL

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 88c22d8..bf1c825 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -309,7 +309,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
-- 
2.43.0


From 280dbe63553a86064079d4a4f0d7df8b60bc5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 44/78] fix: tokenize the parts of a message in order

---
 sbclassifier/tokenizer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 294f5e3..61bb78f 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -800,21 +800,23 @@ def decode_chunk(chunk, charset):
         return chunk.decode('latin-1')
 
 
-# textparts(msg) returns a set containing all the text components of msg.
+# textparts(msg) returns a list containing all the text components of msg.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
 def textparts(msg):
-    """Return a set of all msg parts with content maintype 'text'."""
-    return set([part for part in msg.walk()
-                if part.get_content_maintype() == 'text'])
+    """Return a list of all msg parts with content maintype 'text'."""
+    # Don't want a set here because the order of the tokens must depend on
+    # nothing but the message (for the sake of bigrams).
+    return [part for part in msg.walk()
+            if part.get_content_maintype() == 'text']
 
 
 def octetparts(msg):
-    """Return a set of all msg parts with type 'application/octet-stream'."""
-    return set([part for part in msg.walk()
-                if part.get_content_type() == 'application/octet-stream'])
+    """Return a list of all msg parts with type 'application/octet-stream'."""
+    return [part for part in msg.walk()
+            if part.get_content_type() == 'application/octet-stream']
 
 
 def imageparts(msg):
-- 
2.43.0


From de7f48f0fc8f47b0f80d1cf7a6ce2ab7e0acef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 45/78] fix: respect the basic header tokenization arguments
 and skip list

---
 sbclassifier/tokenizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 61bb78f..4bc570f 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -46,7 +46,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
@@ -1159,8 +1159,9 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
-                               self.tokenize_body(message))
+        headers = self.tokenize_headers(message, basic_header_tokenize,
+                                        basic_header_tokenize_only)
+        return itertools.chain(headers, self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
                          basic_header_tokenize=BASIC_HEADER_TOKENIZE,
-- 
2.43.0


From 3e34eee0cd05a6c105246447a8eae61e7d5f70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 46/78] fix: record the headers that are absent, not those that
 are present

---
 sbclassifier/tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 4bc570f..50b1c07 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1450,8 +1450,9 @@ class Tokenizer:
         for x in list(x2n.items()):
             yield "header:%s:%d" % x
         if RECORD_HEADER_ABSENCE:
-            for k in x2n:
-                if not k.lower() in SAFE_HEADERS:
+            present = set(x.lower() for x in msg.keys())
+            for k in SAFE_HEADERS:
+                if k not in present:
                     yield "noheader:" + k
 
     def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
-- 
2.43.0


From ec56e90baef5d79d79931db473ea2cd0192b2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 47/78] fix: replace the non-ASCII characters of a body

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 50b1c07..06a27e6 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1013,7 +1013,7 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+non_ascii_translate_tab = ''.join(non_ascii_translate_tab).encode('ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
-- 
2.43.0


From 0f125ba7b0e1cb959831f6a7c0d805f9003ad39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 48/78] fix: count a run of short words at the end of a text

---
 sbclassifier/tokenizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 06a27e6..da5cdd3 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1479,6 +1479,8 @@ class Tokenizer:
                 elif n >= 3:
                     for t in tokenize_word(w):
                         yield t
+        if short_count:
+            short_runs.add(short_count)
         if short_runs and X_SHORT_RUNS:
             yield "short:%d" % int(log2(max(short_runs)))
 
-- 
2.43.0


From 81836c341a7463d4b324a2e93dc965d5c1d65803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 49/78] fix: pick apart the URLs of a body

---
 sbclassifier/strippers.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index bf1c825..122c360 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -8,7 +8,7 @@
 from email.utils import collapse_rfc2231_value
 import math
 import re
-import urllib
+import urllib.parse
 
 # Tell SpamBayes where to cache IP address lookup information.
 # Only comes into play if lookup_ip is enabled. The default
@@ -50,12 +50,10 @@ html_style_start_re = re.compile(rb"""
     < \s* style\b [^>]* >
 """, re.VERBOSE)
 
-urlsep_re = re.compile(rb"[;?:@&=+,$.]")
+urlsep_re = re.compile(r"[;?:@&=+,$.]")
 
 fname_sep_re = re.compile(r'[/\\:]')
 
-fname_piece_re = re.compile(r"[;?:@&=+,$.]")
-
 url_fancy_re = re.compile(rb"""
     \b                      # the preceeding character must not be alphanumeric
     (?:
@@ -104,7 +102,7 @@ def crack_filename(fname):
     for component in components:
         if morethan1:
             yield "fname comp:" + component
-        pieces = fname_piece_re.split(component)
+        pieces = urlsep_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
                 yield "fname piece:" + piece
@@ -239,7 +237,8 @@ class URLStripper(Stripper):
         Stripper.__init__(self, search, re.compile(b'').search)
 
     def tokenize(self, m):
-        proto, guts = m.groups()
+        # Treat each byte as a single character.
+        proto, guts = (x and x.decode('latin-1') for x in m.groups())
         assert guts
         if proto is None:
             if guts.lower().startswith("www"):
@@ -248,7 +247,7 @@ class URLStripper(Stripper):
                 proto = "ftp"
             else:
                 proto = "unknown"
-        tokens = [b"proto:" + proto]
+        tokens = ["proto:" + proto]
         pushclue = tokens.append
 
         if X_PICK_APART_URLS:
@@ -265,9 +264,13 @@ class URLStripper(Stripper):
             tokens.extend(["url:" + escape for escape in escapes])
 
             # now remove any obfuscation and probe around a bit
-            url = urllib.parse.unquote(url)
-            scheme, netloc, path, params, query, frag = \
-                urllib.parse.urlparse(url)
+            url = urllib.parse.unquote(url, 'latin-1')
+            try:
+                scheme, netloc, path, params, query, frag = \
+                    urllib.parse.urlparse(url)
+            except ValueError:
+                # There is no way to tell the host of this URL.
+                scheme, netloc = proto, ''
 
             if X_LOOKUP_IP:
                 ips = cache.lookup(netloc)
@@ -309,11 +312,11 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts = guts.rstrip(b'.:?!/')
-        for piece in guts.split(b'/'):
+        guts = guts.rstrip('.:?!/')
+        for piece in guts.split('/'):
             for chunk in urlsep_re.split(piece):
-                pushclue(b"url:" + chunk)
-        return tokens
+                pushclue("url:" + chunk)
+        return [token.encode('latin-1') for token in tokens]
 
 
 StyleStripper = Stripper(html_style_start_re.search,
-- 
2.43.0


From c887ebdbcdc2b818a9737d5deff51499efe5d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 50/78] fix: mine the NNTP-Posting-Host headers

---
 sbclassifier/tokenizer.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index da5cdd3..841e396 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1608,14 +1608,18 @@ class Tokenizer:
 def mine_nntp(msg):
     nntp_headers = msg.get_all("nntp-posting-host", ())
     for address in nntp_headers:
+        address = str(address).strip()
         # Determine if the address is an IP address or a host name.
         try:
-            address = ipaddress.ip_address(address)
-            # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
+            ipaddress.ip_address(address)
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            clues = clues_from_domainname(address)
+        else:
+            # If we have reached this point, then we have an IP address.
+            clues = clues_from_ipaddress(address)
+        for clue in clues:
+            yield clue
 
 
 def top_two(name):
@@ -1644,14 +1648,14 @@ def clues_from_ipaddress(address):
 def clues_from_domainname(name):
     host_clues = ['nntp-host-name:{}'.format(name),
                   'nntp-host-domain:{}'.format(top_two(name))]
-    addresses = dns_lookup(name)
+    addresses = sorted(dns_lookup(name))
     ip_clues = []
     if addresses:
         # For the sake of brevity, rename this function.
         chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
+        ip_clues = list(chain(gen_dotted_quad_clues('nntp-host-ip', address)
+                              for address in addresses))
+        if name in reverse_dns_lookup(addresses[0]):
             ip_clues.append('nntp-host-ip:has-reverse')
     return itertools.chain(host_clues, ip_clues)
 
-- 
2.43.0


From 15e03c88943c245c44f341e1721a64ba839406e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 51/78] fix: treat a name or address that does not resolve as
 having no DNS entry

---
 sbclassifier/dnsutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 38b050e..fd86f76 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -42,11 +42,14 @@ class memoize(dict):
 def reverse_dns_lookup(address):
     try:
         return (socket.gethostbyaddr(address)[0], )
-    except socket.herror:
+    except (socket.herror, socket.gaierror, UnicodeError):
         return ()
 
 
 #@memoize
 @timed
 def dns_lookup(name):
-    return set(x[-1][0] for x in socket.getaddrinfo(name, 80))
+    try:
+        return set(x[-1][0] for x in socket.getaddrinfo(name, 80))
+    except (socket.gaierror, UnicodeError):
+        return set()
-- 
2.43.0


From a6f8d67a44a1056d2f3f59af3d975e1bfc3cb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 52/78] fix: respect the prefix lengths of the subnets

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From 112643bb4903111bfc2b5bbced055d06703f5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 53/78] fix: treat every failed DNS lookup as having no DNS
 entry

---
 sbclassifier/dnsutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index fd86f76..bb32558 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -42,7 +42,7 @@ class memoize(dict):
 def reverse_dns_lookup(address):
     try:
         return (socket.gethostbyaddr(address)[0], )
-    except (socket.herror, socket.gaierror, UnicodeError):
+    except (OSError, UnicodeError):
         return ()
 
 
@@ -51,5 +51,5 @@ def reverse_dns_lookup(address):
 def dns_lookup(name):
     try:
         return set(x[-1][0] for x in socket.getaddrinfo(name, 80))
-    except (socket.gaierror, UnicodeError):
+    except (OSError, UnicodeError):
         return set()
-- 
2.43.0


From d7ce1dfeb0b751e43a1cf601f465ba0725884715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 54/78] fix: set up and score with a slurping classifier

---
 sbclassifier/classifiers/slurping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..5260c78 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -171,8 +171,8 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        needs_to_slurp = all((len(clues) < MAX_DISCRIMINATORS,
+                              is_unsure(prob), slurp_wordstream))
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
             slurp_tokens.extend([w for (w, _p) in clues])
@@ -221,9 +221,9 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        self.urlCorpus = ExpiryFileCorpus(age, dir, cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
-- 
2.43.0


From d8a14c7d070a432dd6d472285f298f3874d5fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 55/78] fix: remember the URL to slurp

---
 sbclassifier/classifiers/slurping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 5260c78..7a8fd1c 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -136,6 +136,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -147,7 +148,9 @@ class SlurpingURLStripper(URLStripper):
         # if not options["URLRetriever", "x-slurp_urls"]:
         #     return tokens
 
-        proto, guts = m.groups()
+        global slurp_wordstream
+        # Treat each byte as a single character.
+        proto, guts = (x and x.decode('latin-1') for x in m.groups())
         if proto != "http":
             return tokens
 
-- 
2.43.0


From eb42e325a2ade91a010c78a402e021d92894ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 56/78] fix: train on the page at the URL of this message, not
 of the previous one

---
 sbclassifier/classifiers/slurping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 7a8fd1c..f6c0e22 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -6,7 +6,6 @@
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
 from email import message_from_string
-import itertools
 import logging
 import os
 import re
@@ -190,13 +189,17 @@ class SlurpingClassifier(Classifier):
     def learn(self, wordstream, is_spam):
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
-        wordstream = itertools.chain(wordstream, self._generate_slurp())
+        # The tokens must be generated before the URL to slurp is known.
+        wordstream = list(wordstream)
+        wordstream.extend(self._generate_slurp())
         self._add_msg(wordstream, is_spam)
 
     def unlearn(self, wordstream, is_spam):
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
-        wordstream = itertools.chain(wordstream, self._generate_slurp())
+        # The tokens must be generated before the URL to slurp is known.
+        wordstream = list(wordstream)
+        wordstream.extend(self._generate_slurp())
         self._remove_msg(wordstream, is_spam)
 
     def _generate_slurp(self):
-- 
2.43.0


From 9b4a1e194f7b57497228cccb86616fef93e3f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 57/78] fix: let the base of a URL be slurped

---
 sbclassifier/classifiers/slurping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index f6c0e22..d6f78af 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -109,7 +109,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
-- 
2.43.0


From a600aca0b9c5fe0a40f1e5f2b10221c0d261f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 58/78] fix: generate and remember a single token for each HTTP
 error

---
 sbclassifier/classifiers/slurping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index d6f78af..e526fc5 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -336,10 +336,13 @@ class SlurpingClassifier(Classifier):
             except requests.exceptions.RequestException as exception:
                 mo = HTTP_ERROR_RE.match(str(exception))
                 if mo:
-                    self.http_error_urls[url] = "url:http_" + mo.group(1)
-                    return ["url:http_" + mo.group(1)]
+                    self.http_error_urls[url] = ["url:http_" + mo.group(1)]
+                    return self.http_error_urls[url]
                 self.bad_urls["url:unknown_error"] += (url,)
                 return ["url:unknown_error"]
+            if f.status_code >= 400:
+                self.http_error_urls[url] = ["url:http_%d" % f.status_code]
+                return self.http_error_urls[url]
 
             # Anything that isn't text/html is ignored
             content_type = f.headers.get('content-type')
-- 
2.43.0


From c4834fb3bcb23afcfebae5e02fa9780ad090b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 59/78] fix: slurp without a proxy, and treat a URL without
 host as not resolving

---
 sbclassifier/classifiers/slurping.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index e526fc5..d32e34c 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -300,6 +300,9 @@ class SlurpingClassifier(Classifier):
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
+        if mo is None:
+            self.bad_urls["url:non_resolving"] += (url,)
+            return ["url:non_resolving"]
         domain = mo.group(1)
         if mo.group(3) is None:
             port = 80
@@ -307,7 +310,7 @@ class SlurpingClassifier(Classifier):
             port = mo.group(3)
         try:
             socket.getaddrinfo(domain, port)
-        except OSError:
+        except (OSError, OverflowError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
             return ["url:non_resolving"]
 
@@ -328,7 +331,8 @@ class SlurpingClassifier(Classifier):
             url_with_proto = '{}://{}'.format(proto, url)
             proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
                           PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = (dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+                       if PROXY_SERVER else None)
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
-- 
2.43.0


From 1c96600ce928d6e5a015d48420ea2000cbecaad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 60/78] fix: cache and tokenize the page at a URL

---
 sbclassifier/classifiers/slurping.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index d32e34c..cfb5f6b 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
+import hashlib
 import logging
 import os
 import re
@@ -19,6 +19,7 @@ from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
 #from sbclassifier.corpora.filesystem import FileMessageFactory
+from sbclassifier.message import from_bytes as message_from_bytes
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 from sbclassifier.tokenizer import tokenize
@@ -317,6 +318,10 @@ class SlurpingClassifier(Classifier):
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
         url_key = URL_KEY_RE.sub('_', url)
+        if len(url_key) > 200:
+            # This would be too long for the name of a file.
+            digest = hashlib.sha1(url.encode('utf-8')).hexdigest()
+            url_key = '{}_{}'.format(url_key[:150], digest)
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
@@ -355,19 +360,19 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            headers = ''.join('{}: {}\r\n'.format(name, value)
+                              for name, value in f.headers.items())
+            fake_message_string = headers + "\r\n" + f.text
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
+            msg = message_from_bytes(bytes(fake_message_string, 'utf-8',
+                                           'replace'), url_key)
+            self.urlCorpus.add_message(msg)
         else:
-            fake_message_string = cached_message.as_string()
-
-        msg = message_from_string(fake_message_string)
+            msg = cached_message
 
         tokens = tokenize(msg, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
-        return tokens
+        prefix = bytes(X_WEB_PREFIX, 'utf-8')
+        return [prefix + tok for tok in tokens]
-- 
2.43.0


From b80f48c6c589f1075d63bbe6744b78a3b34f28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 61/78] fix: generate slurped tokens that can be compared with
 those of a message

---
 sbclassifier/classifiers/slurping.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index cfb5f6b..e4564bf 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -178,7 +178,8 @@ class SlurpingClassifier(Classifier):
                               is_unsure(prob), slurp_wordstream))
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
-            slurp_tokens.extend([w for (w, _p) in clues])
+            # Skip the first two clues, which are not words.
+            slurp_tokens.extend([w for (w, _p) in clues[2:]])
             sprob, sclues = super().spamprob(slurp_tokens, True)
             if not is_unsure(sprob):
                 prob = sprob
@@ -212,11 +213,14 @@ class SlurpingClassifier(Classifier):
         if not hasattr(self, "do_slurp") or self.do_slurp:
             if slurp_wordstream:
                 self.do_slurp = False
-
-                tokens = self.slurp(*slurp_wordstream)
-                self.do_slurp = True
+                try:
+                    tokens = self.slurp(*slurp_wordstream)
+                finally:
+                    self.do_slurp = True
                 self._save_caches()
-                return tokens
+                # Like the tokens generated by the tokenizer, these are bytes.
+                return [tok if isinstance(tok, bytes) else bytes(tok, 'utf-8')
+                        for tok in tokens]
         return []
 
     def setup(self):
-- 
2.43.0


From b00d642cd4bff0c34484257617917c52d55fe739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 62/78] fix: tokenize text that mixes non-ASCII characters and
 undecodable bytes

---
 sbclassifier/tokenizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 841e396..c0b5e30 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1158,7 +1158,14 @@ class Tokenizer:
     def __call__(self, message, basic_header_tokenize=BASIC_HEADER_TOKENIZE,
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
-            message = email.message_from_string(message)
+            try:
+                message.encode('utf-8')
+            except UnicodeEncodeError:
+                # Some bytes of the message could not be decoded.
+                message = message.encode('utf-8', 'surrogateescape')
+                message = email.message_from_bytes(message)
+            else:
+                message = email.message_from_string(message)
         headers = self.tokenize_headers(message, basic_header_tokenize,
                                         basic_header_tokenize_only)
         return itertools.chain(headers, self.tokenize_body(message))
-- 
2.43.0


From 9d45a912147f20d220367574c969c279af66ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 63/78] fix: keep the pages at different URLs apart

---
 sbclassifier/classifiers/slurping.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index e4564bf..25d15cc 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -321,11 +321,10 @@ class SlurpingClassifier(Classifier):
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
-        url_key = URL_KEY_RE.sub('_', url)
-        if len(url_key) > 200:
-            # This would be too long for the name of a file.
-            digest = hashlib.sha1(url.encode('utf-8')).hexdigest()
-            url_key = '{}_{}'.format(url_key[:150], digest)
+        # The key must be a valid file name that differs from that of any
+        # other URL.
+        url_key = '{}_{}'.format(URL_KEY_RE.sub('_', url)[:100],
+                                 hashlib.sha1(url.encode('utf-8')).hexdigest())
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
-- 
2.43.0


From 07c42be1107b76b7e13bb83121e32a9bdc952d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 64/78] fix: tokenize content parameters that cannot be put
 together

---
 sbclassifier/strippers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 122c360..40aa9b0 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -111,20 +111,20 @@ def crack_filename(fname):
 def crack_content_xyz(msg):
     yield 'content-type:' + msg.get_content_type()
 
-    x = msg.get_param('type')
-    if x is not None:
-        # The value is a tuple if it is encoded as described by RFC 2231.
-        try:
+    try:
+        x = msg.get_param('type')
+        if x is not None:
+            # The value is a tuple if it is encoded as described by RFC 2231.
             yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
-        except ValueError:
-            # The value cannot be decoded.
-            yield 'content-type/type:<bogus>'
+    except (TypeError, ValueError):
+        # The parameters or the value cannot be decoded.
+        yield 'content-type/type:<bogus>'
 
     try:
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except ValueError:
+    except (TypeError, ValueError):
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
-- 
2.43.0


From 2b74b85aabb61c2efa4b84bb2cb122fb20caa43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 65/78] fix: do not show a message whose file has been deleted
 by somebody else

---
 sbclassifier/corpora/caches.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 1547b86..ea20a6b 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -154,7 +154,10 @@ class FileCache(NaiveCache):
 
     def __getitem__(self, key):
         if key in self.data:
-            return self.data[key]
+            if self._is_message(key):
+                return self.data[key]
+            # Somebody else has deleted the file of the message in memory.
+            self.flush(key)
         if key in os.listdir(self.directory) and self._is_message(key):
             return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
-- 
2.43.0


From b6619244f99975a9f06473a7ad4e99c0e3fb33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 66/78] fix: do not leave an incomplete file if a message
 cannot be stored

---
 sbclassifier/corpora/caches.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index ea20a6b..5e65638 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -180,10 +180,17 @@ class FileCache(NaiveCache):
             raise ValueError(msg)
         # If the message cannot be converted to bytes, then store nothing.
         data = value.as_bytes()
-        super().put(key, value)
         logging.debug('Storing %s to file', key)
-        with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(data)
+        path = os.path.join(self.directory, key)
+        with open(path, 'wb') as f:
+            try:
+                f.write(data)
+                f.flush()
+            except BaseException:
+                # Do not leave an incomplete message.
+                os.remove(path)
+                raise
+        super().put(key, value)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From d359fc86e6d142dac94ff5964af6e2079ffe5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 67/78] fix: start afresh if the caches of failing URLs are
 damaged

---
 sbclassifier/classifiers/slurping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 25d15cc..4e7ca7b 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -242,9 +242,10 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.bad_url_cache_name):
             try:
                 self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
-                # probably).  Start afresh.
+                # probably).  Start afresh.  (A bad pickle can raise
+                # almost any exception.)
                 logging.warning("Bad URL pickle, using new.")
                 self.bad_urls = {"url:non_resolving": (),
                                  "url:non_html": (),
@@ -257,7 +258,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.http_error_cache_name):
             try:
                 self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.debug("Bad HHTP error pickle, using new.")
-- 
2.43.0


From ddb8cf70eb83c3d938289351112ba21b66d9ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 68/78] fix: read messages whose boundary cannot be decoded

---
 sbclassifier/message.py   | 8 ++++++++
 sbclassifier/tokenizer.py | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 2e7e541..decf012 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -261,6 +261,14 @@ class Message(_Message):
     def id(self):
         return self.messageid
 
+    def get_boundary(self, failobj=None):
+        # Parsing a message asks for the boundary of each of its parts.
+        try:
+            return super().get_boundary(failobj)
+        except (TypeError, ValueError):
+            # The parameters of the header cannot be decoded.
+            return failobj
+
     # def getId(self):
     #     return self.messageid
 
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index c0b5e30..e25f818 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -23,6 +23,8 @@ import binascii
 
 from sbclassifier.dnsutils import dns_lookup
 from sbclassifier.dnsutils import reverse_dns_lookup
+from sbclassifier.message import from_bytes as message_from_bytes
+from sbclassifier.message import from_string as message_from_string
 from sbclassifier.strippers import UUencodeStripper
 from sbclassifier.strippers import URLStripper
 from sbclassifier.strippers import StyleStripper
@@ -1163,9 +1165,9 @@ class Tokenizer:
             except UnicodeEncodeError:
                 # Some bytes of the message could not be decoded.
                 message = message.encode('utf-8', 'surrogateescape')
-                message = email.message_from_bytes(message)
+                message = message_from_bytes(message)
             else:
-                message = email.message_from_string(message)
+                message = message_from_string(message)
         headers = self.tokenize_headers(message, basic_header_tokenize,
                                         basic_header_tokenize_only)
         return itertools.chain(headers, self.tokenize_body(message))
-- 
2.43.0


From 796fbd40766bf07700e3d99dd28b2e020a48fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 69/78] fix: keep the line ends of a message without body that
 an exception is reported in

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index decf012..0600df1 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -635,7 +635,7 @@ def insert_exception_header(string_msg, msg_id=None):
         headers, body = re.split(r'\n\r?\n', string_msg, 1)
     except ValueError:
         # No body - this is a bad message!
-        headers = string_msg.rstrip('\r\n')
+        headers = re.sub(r'\n\r?\Z', '', string_msg)
         body = ""
     header = re.sub(r'\r?\n', '\r\n', str(header))
     headers += "\n%s: %s\r\n" % (headerName, header)
-- 
2.43.0


From 4d34912fb5541543e56d2dd47ca1ce841d741137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 70/78] fix: keep the permissions of a constant database, and
 links to it

---
 sbclassifier/classifiers/storage.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index c6a2042..9715067 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -51,7 +51,8 @@ import os
 # import tempfile
 # import errno
 import shelve
-from tempfile import NamedTemporaryFile
+import shutil
+import uuid
 
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
@@ -677,14 +678,18 @@ class CDBClassifier(StoredClassifierBase):
         items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
         # Write the whole database before replacing the previous one.
-        directory = os.path.dirname(os.path.abspath(self.filename))
-        with NamedTemporaryFile(dir=directory, delete=False) as f:
+        # The file has the same permissions as if it were written in place.
+        path = os.path.realpath(self.filename)
+        name = os.path.join(os.path.dirname(path), 'tmp' + uuid.uuid4().hex)
+        with open(name, 'xb') as f:
             try:
+                if os.path.exists(path):
+                    shutil.copymode(path, name)
                 cdb_make(f, items)
                 f.flush()
-                os.replace(f.name, self.filename)
+                os.replace(name, path)
             except BaseException:
-                os.remove(f.name)
+                os.remove(name)
                 raise
 
 
-- 
2.43.0


From 4f235eb3fad84ff024dc3dcea39a19d10c425b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 71/78] fix: train nothing if the tokens of a message cannot be
 generated

---
 sbclassifier/classifiers/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index b75bc31..61af6bb 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -453,13 +453,15 @@ class Classifier:
     # in a msg, but distorting spamprob doesn't appear a correct way to exploit
     # it.
     def _add_msg(self, wordstream, is_spam):
+        # If the tokens cannot be generated, then nothing must be changed.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             self.nspam += 1
         else:
             self.nham += 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is None:
                 record = self.WordInfoClass()
@@ -474,6 +476,8 @@ class Classifier:
         self._post_training()
 
     def _remove_msg(self, wordstream, is_spam):
+        # If the tokens cannot be generated, then nothing must be changed.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             if self.nspam <= 0:
@@ -484,7 +488,7 @@ class Classifier:
                 raise ValueError("non-spam count would go negative!")
             self.nham -= 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is not None:
                 if is_spam:
-- 
2.43.0


From 7730a3618c21d063924a5c7679ab7468be5283d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 72/78] fix: restore the default timeout after lookups in
 several threads

---
 sbclassifier/dnsutils.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index bb32558..a1597ea 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -1,5 +1,6 @@
 import functools
 import socket
+import threading
 
 
 #: The maximum number of seconds to wait when making a forward or reverse DNS
@@ -7,17 +8,37 @@ import socket
 DEFAULT_TIMEOUT = 10
 
 
+class default_timeout:
+    # The default timeout is the same for all threads, so it is restored once
+    # the last of several lookups at the same time has ended.
+    lock = threading.Lock()
+    lookups = 0
+    old_timeout = None
+
+    @classmethod
+    def __enter__(cls):
+        with cls.lock:
+            if cls.lookups == 0:
+                cls.old_timeout = socket.getdefaulttimeout()
+            socket.setdefaulttimeout(DEFAULT_TIMEOUT)
+            cls.lookups += 1
+
+    @classmethod
+    def __exit__(cls, *exc):
+        with cls.lock:
+            cls.lookups -= 1
+            if cls.lookups == 0:
+                socket.setdefaulttimeout(cls.old_timeout)
+
+
 def timed(f):
     @functools.wraps(f)
     def timed_f(*args, **kw):
         try:
-            old_timeout = socket.getdefaulttimeout()
-            socket.setdefaulttimeout(DEFAULT_TIMEOUT)
-            return f(*args, **kw)
+            with default_timeout():
+                return f(*args, **kw)
         except socket.timeout:
             return ()
-        finally:
-            socket.setdefaulttimeout(old_timeout)
     return timed_f
 
 
-- 
2.43.0


From 35d8606fefbf7a9f569e8fe7dbd57954fa35f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 73/78] fix: allow for messages that are deleted by somebody
 else while they are read

---
 sbclassifier/corpora/caches.py     | 19 ++++++++++++++-----
 sbclassifier/corpora/filesystem.py |  8 ++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 5e65638..955a0cd 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -159,19 +159,28 @@ class FileCache(NaiveCache):
             # Somebody else has deleted the file of the message in memory.
             self.flush(key)
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key, message_id=key)
+            try:
+                return self._message_from_path(key, message_id=key)
+            except FileNotFoundError:
+                # Somebody else has just deleted it.
+                pass
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
         return (f for f in os.listdir(self.directory) if self._is_message(f))
 
     def values(self):
-        # Need to recreate each message object from the files.
-        return (self._message_from_path(f, message_id=f) for f in self.keys())
+        return (message for f, message in self.items())
 
     def items(self):
-        return ((f, self._message_from_path(f, message_id=f))
-                for f in self.keys())
+        # Need to recreate each message object from the files.
+        for f in self.keys():
+            try:
+                message = self._message_from_path(f, message_id=f)
+            except FileNotFoundError:
+                # Somebody else has just deleted it.
+                continue
+            yield f, message
 
     def put(self, key, value):
         if not self._is_message_name(key):
diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 45eea76..51a5d2e 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -95,8 +95,12 @@ class ExpiryFileCorpus(FileCorpus):
         # Iterate over a copy of the list because the keys will be modified
         # during the loop.
         for key in list(self.keys()):
-            msg = self[key]
-            timestamp = os.path.getmtime(os.path.join(self.directory, key))
+            try:
+                msg = self[key]
+                timestamp = os.path.getmtime(os.path.join(self.directory, key))
+            except (KeyError, FileNotFoundError):
+                # Somebody else has just deleted it.
+                continue
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-- 
2.43.0


From 50edd1146066a70dee7d7b979c283f648cbf39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 74/78] fix: do not empty a new shelved database when it is
 loaded again

---
 sbclassifier/classifiers/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 9715067..a154488 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -220,9 +220,13 @@ class ShelveClassifier(StoredClassifierBase):
         #
         # If the database is already open, then it must be closed before it is
         # opened again, so that it is read as last written.
+        flag = self.flag
         if hasattr(self, 'db'):
             self.db.close()
-        self.db = shelve.open(self.filename, self.flag)
+            if flag == 'n':
+                # Only the first time does it have to be empty.
+                flag = 'c'
+        self.db = shelve.open(self.filename, flag)
         self._probcache = {}
         if self.statekey in self.db:
             t = self.db[self.statekey]
-- 
2.43.0


From e32de382bdcacecc18942199fdbd647c2417d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 75/78] fix: use no clues if the maximum number of clues is 0

---
 sbclassifier/classifiers/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 61af6bb..bffab13 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -591,7 +591,7 @@ class Classifier:
 
         # If there are too many clues, remove the first few.
         if len(clues) > MAX_DISCRIMINATORS:
-            del clues[0:-MAX_DISCRIMINATORS]
+            del clues[:len(clues) - MAX_DISCRIMINATORS]
 
         # Return (prob, word, record).
         return [t[1:] for t in clues]
-- 
2.43.0


From bab51432499c159404a459fbc6b7b375e9779331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 76/78] fix: score messages with more than a thousand clues

---
 sbclassifier/classifiers/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index bffab13..8c9bb02 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -129,8 +129,12 @@ def chi2Q(x2, v):  # , exp=math.exp, min=min):
     if v & 1 != 0:
         raise ValueError('v must be even')
 
-    # XXX If x2 is very large, exp(-m) will underflow to 0.
     m = x2 / 2  # this is true division on Python 3
+    if m > 700:
+        # The first terms underflow to 0, but the sum of all of them need not.
+        logm = math.log(m)
+        return min(math.fsum(math.exp(i * logm - m - math.lgamma(i + 1))
+                             for i in range(v // 2)), 1.0)
     result = math.exp(-m)
     term = result
     for i in range(1, v // 2):
-- 
2.43.0


From 0cfcdf27c87d77c2c64c01bfb07244b53940b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 77/78] fix: tokenize texts with many unfinished tags, or a
 long number as host, in reasonable time

---
 sbclassifier/strippers.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 40aa9b0..0fdbb93 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -302,7 +302,8 @@ class URLStripper(Stripper):
                     pushclue("url:non-standard %s port" % scheme)
 
             # ... as are web servers associated with raw ip addresses
-            if re.match("(\d+\.?){4,4}$", host) is not None:
+            if re.match(r"(?=(?:\D*\d){4})\d+(?:\.\d+){0,3}\.?$",
+                        host) is not None:
                 pushclue("url:ip addr")
 
             # make sure we later tokenize the unobfuscated url bits
@@ -319,11 +320,21 @@ class URLStripper(Stripper):
         return [token.encode('latin-1') for token in tokens]
 
 
-StyleStripper = Stripper(html_style_start_re.search,
+def search_tag(regex):
+    """Returns a function that searches for a tag like ``regex.search``.
+
+    A tag cannot end after the last ``>`` of the text, so there is no need to
+    look for its end again and again.
+
+    """
+    return lambda text, i: regex.search(text, i, text.rfind(b'>') + 1)
+
+
+StyleStripper = Stripper(search_tag(html_style_start_re),
                          re.compile(br"</style>").search)
 
 
-CommentStripper = Stripper(re.compile(br"<!--|<\s*comment\s*[^>]*>").search,
+CommentStripper = Stripper(search_tag(re.compile(br"<!--|<\s*comment[^>]*>")),
                            re.compile(br"-->|</comment>").search)
 
 
-- 
2.43.0


From b3eb0df97d2b611a720974a452c69c4e68cae844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 78/78] fix: tokenize address headers with deeply nested
 comments

---
 sbclassifier/tokenizer.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index e25f818..d41c710 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -802,6 +802,18 @@ def decode_chunk(chunk, charset):
         return chunk.decode('latin-1')
 
 
+def get_addresses(headers):
+    """Returns the list of (name, address) pairs in the specified header
+    values.
+
+    """
+    try:
+        return email.utils.getaddresses(headers)
+    except RecursionError:
+        # There are too many nested comments to parse the addresses.
+        return [('', '')]
+
+
 # textparts(msg) returns a list containing all the text components of msg.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
@@ -1293,7 +1305,7 @@ class Tokenizer:
                 continue
 
             noname_count = 0
-            for name, addr in email.utils.getaddresses(addrlist):
+            for name, addr in get_addresses(addrlist):
                 if name:
                     try:
                         subjcharsetlist = email.header.decode_header(name)
@@ -1333,7 +1345,7 @@ class Tokenizer:
         if SUMMARIZE_EMAIL_PREFIXES:
             all_addrs = []
             addresses = msg.get_all('to', []) + msg.get_all('cc', [])
-            for name, addr in email.utils.getaddresses(addresses):
+            for name, addr in get_addresses(addresses):
                 all_addrs.append(addr.lower())
 
             if len(all_addrs) > 1:
@@ -1360,7 +1372,7 @@ class Tokenizer:
         if SUMMARIZE_EMAIL_SUFFIXES:
             all_addrs = []
             addresses = msg.get_all('to', []) + msg.get_all('cc', [])
-            for name, addr in email.utils.getaddresses(addresses):
+            for name, addr in get_addresses(addresses):
                 # flip address code so following logic is the same as
                 # that for prefixes
                 addr = list(addr)
-- 
2.43.0

