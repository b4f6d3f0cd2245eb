From db392662accb69116e38b82679a2794d2b834557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 01/40] fix: Trainer used Message.key(), which does not exist

Every train() and untrain() call raised AttributeError while building its
log message; the identifier of a message is Message.id().
---
 sbclassifier/trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..8578661 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From e4a8fc7007cb07088706ba8c24e578176915d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 02/40] fix: untrain a message that is removed from a corpus

The trainer connected train() to the message_removed signal, so removing a
message trained it a second time.
---
 sbclassifier/trainers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 8578661..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
-- 
2.43.0


From 522e2fc10d4ee5eccda4e0a89c60bfff4e179ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 03/40] fix: do not discard an empty cache given to Corpus

An empty cache is false, so Corpus replaced it by an unbounded in-memory
cache: a FileCorpus on an empty directory never wrote a file.
---
 sbclassifier/corpora/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..db6495f 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,9 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        if cache is None:
+            cache = NaiveCache(max_size=INFINITY)
+        self.message_cache = cache
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From c12b82c81538c9e065e1d2d091289c6341e6d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 04/40] fix: putting a key twice into NaiveCache made it evict
 early

The key was appended to the list of keys again, so the cache counted it
twice and evicted entries while it still had room.
---
 sbclassifier/corpora/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..e997a28 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -87,9 +87,10 @@ class NaiveCache(Cache):
 
     def put(self, key, value):
         logging.debug('Caching %s', key)
+        if key not in self.data:
+            self._keys.append(key)
         self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From d84e77e738ac3b39e45e75d7061d1ed65bde5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 05/40] fix: flushing a message from memory deleted its file

NaiveCache.put evicts through self.pop(), which FileCache overrides to
remove the file as well, so adding more messages than the cache size
deleted the oldest ones from disk.
---
 sbclassifier/corpora/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index e997a28..3306a65 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -95,7 +95,9 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            # A subclass may also remove the entry from its permanent storage
+            # in pop(); the entry must be flushed from memory only.
+            NaiveCache.pop(self, key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
-- 
2.43.0


From 80e50998fb78d8902562f2bb417a94a610c119bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 06/40] fix: the length of a FileCache ignored added and
 removed messages

---
 sbclassifier/corpora/caches.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 3306a65..28d9e40 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -123,9 +123,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -135,7 +132,8 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        # Scan the directory for existing message files.
+        return sum(1 for _ in self.keys())
 
     def __iter__(self):
         return self.keys()
-- 
2.43.0


From bf8ce344d1f1e58e5d22925fdc07122f49832447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 07/40] fix: a message read back from a FileCache had no ID

Such a message could not be removed from its corpus again.
---
 sbclassifier/corpora/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 28d9e40..621ad63 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -142,7 +142,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
-- 
2.43.0


From 9bb8c8831b676eabd4320372fb095d1c1578b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 08/40] fix: remove_sb_headers swapped the To and Subject
 options

---
 sbclassifier/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..b6c82b2 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -558,7 +558,8 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_subject_notations=remove_subject_notations,
+                              remove_to_notations=remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From 37b1b5946a808d5be4d862b4901c7cb863c5f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 09/40] fix: a wordstream that raises changed the number of
 trained messages

---
 sbclassifier/classifiers/basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..105fa05 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -438,13 +438,16 @@ class Classifier:
     # in a msg, but distorting spamprob doesn't appear a correct way to exploit
     # it.
     def _add_msg(self, wordstream, is_spam):
+        # Consume the stream first: if it raises an exception, then nothing has
+        # been trained.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             self.nspam += 1
         else:
             self.nham += 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is None:
                 record = self.WordInfoClass()
@@ -459,6 +462,8 @@ class Classifier:
         self._post_training()
 
     def _remove_msg(self, wordstream, is_spam):
+        # As in _add_msg(), consume the stream before changing anything.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             if self.nspam <= 0:
@@ -469,7 +474,7 @@ class Classifier:
                 raise ValueError("non-spam count would go negative!")
             self.nham -= 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is not None:
                 if is_spam:
-- 
2.43.0


From b68bbc9e55e38ddd47f69b7046dda4c4011f8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 10/40] fix: bigrams of bytes tokens could not be sorted with
 their unigrams

---
 sbclassifier/classifiers/basic.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 105fa05..f0d6514 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -53,6 +53,19 @@ PICKLE_VERSION = 5
 #: The format string for creating a token from a bigram.
 BIGRAM_FORMAT = 'bi:{} {}'
 
+
+def bigram(x, y):
+    """Returns the token for the pair of adjacent tokens `x` and `y`.
+
+    The bigram is of the same type as the tokens, so that it can be compared
+    with them.
+
+    """
+    if isinstance(x, bytes) and isinstance(y, bytes):
+        return b'bi:' + x + b' ' + y
+    return BIGRAM_FORMAT.format(x, y)
+
+
 #: Generate both unigrams (words) and bigrams (pairs of words). However,
 #: extending an idea originally from Gary Robinson, the message is 'tiled' into
 #: non-overlapping unigrams and bigrams, approximating the strongest outcome
@@ -343,8 +356,8 @@ class Classifier:
         chain = itertools.chain.from_iterable
         # Create an iterable of bigrams from `wordstream`.
         bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
-        # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
+        # This must match the bigrams created in _getclues().
+        to_string = bigram
         # This interleaves the individual strings from `wordstream` with the
         # string representation of the bigrams.
         return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
@@ -533,9 +546,9 @@ class Classifier:
             seen = set()
             for i, token in enumerate(wordstream):
                 if i:   # not the 1st loop trip, so there is a preceding token
-                    # This string interpolation must match the one in
+                    # This must match the bigrams created in
                     # _enhance_wordstream().
-                    pair = BIGRAM_FORMAT.format(last_token, token)
+                    pair = bigram(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
                     if clue not in seen:    # as always, skip duplicates
-- 
2.43.0


From 9b6cbc8678d0041ac0d2710611f8022ee3415955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 11/40] fix: bigram training lost the last token, and pairs of
 an iterator

---
 sbclassifier/classifiers/basic.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index f0d6514..a2a1f52 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -41,7 +41,6 @@ of scores, and good cutoff values aren't touchy).
 This implementation is due to Tim Peters et alia.
 
 """
-import itertools
 import math
 
 #: The natural logarithm of two; this is used frequently by a function
@@ -352,15 +351,15 @@ class Classifier:
         removed, too.
 
         """
-        # For the sake of brevity, create an alias.
-        chain = itertools.chain.from_iterable
-        # Create an iterable of bigrams from `wordstream`.
-        bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
-        # This must match the bigrams created in _getclues().
-        to_string = bigram
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        # `wordstream` may be an iterator, so go through it only once. Each
+        # bigram follows the second of its tokens.
+        last_token = None
+        for i, token in enumerate(wordstream):
+            yield token
+            if i:
+                # This must match the bigrams created in _getclues().
+                yield bigram(last_token, token)
+            last_token = token
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From 83ad275bdc019bb3f37692df92119a3cc2e80637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 12/40] fix: loading a classifier kept the probabilities of the
 old counts

---
 sbclassifier/classifiers/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..780db02 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -160,6 +160,7 @@ class PickleClassifier(StoredClassifierBase):
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
+            self._probcache = {}
             self.nham = 0
             self.nspam = 0
             return
@@ -221,6 +222,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.wordinfo = {}
+        self._probcache = {}
         self.deleted_words = set()
         self.changed_words = set()
 
-- 
2.43.0


From 5e7a5524f1254cda3c57cbf5c2a3187c330a7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 13/40] fix: a locked or damaged pickle was loaded as an empty
 classifier

---
 sbclassifier/classifiers/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 780db02..da2b80c 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -156,7 +156,7 @@ class PickleClassifier(StoredClassifierBase):
 
         try:
             tempbayes = pickle_read(self.filename)
-        except:
+        except FileNotFoundError:
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
-- 
2.43.0


From dd3e1d94f395ed60b450fda7ba121c01762039f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 14/40] fix: storing a pickle was not atomic across filesystems

---
 sbclassifier/safepickle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..6943eac 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
 import shutil
 
@@ -28,7 +29,10 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
-        # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
+        # first, then move the data to the requested filename second. Moving
+        # a file replaces the target in one step only on the same filesystem,
+        # so the temporary file is created next to the target.
+        directory = os.path.dirname(os.path.abspath(filename))
+        with NamedTemporaryFile(dir=directory, delete=False) as fp:
             pickle.dump(value, fp, protocol)
         shutil.move(fp.name, filename)
-- 
2.43.0


From 14319da34f126557ceb09764ffb017956c7fe808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 15/40] fix: ShelveClassifier failed on bytes words and on its
 state key

---
 sbclassifier/classifiers/storage.py | 34 ++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index da2b80c..5525698 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -105,6 +105,30 @@ WORD_CHANGED = "C"
 
 STATE_KEY = 'saved state'
 
+
+def _db_key(word):
+    """Returns the key in a shelf for the specified word.
+
+    Shelf keys must be strings, and no word may have the same key as another
+    word or as the state of the classifier. Most words are their own key.
+
+    """
+    if isinstance(word, bytes):
+        return 'b:' + word.decode('latin-1')
+    if word == STATE_KEY or word.startswith(('b:', 's:')):
+        return 's:' + word
+    return word
+
+
+def _word_from_db_key(key):
+    """Returns the word whose key is `key`; the inverse of :func:`_db_key`."""
+    if key.startswith('b:'):
+        return key[2:].encode('latin-1')
+    if key.startswith('s:'):
+        return key[2:]
+    return key
+
+
 # # Make shelve use binary pickles by default.
 # oldShelvePickler = shelve.Pickler
 
@@ -236,7 +260,7 @@ class ShelveClassifier(StoredClassifierBase):
         # the naive way.
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[_db_key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -244,7 +268,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[_db_key(word)]
             except KeyError:
                 pass
 
@@ -275,7 +299,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(_db_key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -301,7 +325,7 @@ class ShelveClassifier(StoredClassifierBase):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[_db_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
@@ -328,7 +352,7 @@ class ShelveClassifier(StoredClassifierBase):
     def _wordinfokeys(self):
         wordinfokeys = list(self.db.keys())
         del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        return [_word_from_db_key(key) for key in wordinfokeys]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From d95b7d1466f88325fa2df4df4f065e4854f1831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 16/40] fix: cdb hashed bytes with ord() and wrote lengths in
 characters

---
 sbclassifier/cdb.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..7f926a8 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -23,6 +23,10 @@ def uint32_unpack(buf):
 def uint32_pack(n):
     return struct.pack('<L', n)
 
+
+def to_bytes(s):
+    return bytes(s, 'utf-8') if isinstance(s, str) else s
+
 CDB_HASHSTART = 5381
 
 
@@ -30,7 +34,7 @@ def cdb_hash(buf):
     h = CDB_HASHSTART
     for c in buf:
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
@@ -110,6 +114,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +175,13 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        # All lengths and positions in the file are in bytes.
+        key = to_bytes(key)
+        value = to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From 102d07c83ecbda79698be4763e0e8dbe280a1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 17/40] fix: CDBClassifier could be neither stored nor loaded

---
 sbclassifier/classifiers/storage.py | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 5525698..5395010 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -54,18 +54,10 @@ import shelve
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier import cdb
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
-
-
 # A little magic.  We'd like to use ZODB as the default storage,
 # because we've had so many problems with bsddb, and we'd like to swap
 # to new ZODB problems <wink>.  However, apart from this, we only need
@@ -648,15 +640,21 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+            with open(self.filename, 'rb') as f:
+                db = cdb.Cdb(f)
+                data = {k.decode('utf-8'): v.decode('utf-8')
+                        for k, v in db.items()}
+                db.close()
             self.nham, self.nspam = [int(i) for i in
                                      data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
-                             if k != self.statekey}
+            # The ham count comes first in the database.
+            from_string = lambda s: WordInfo(*(int(n) for n in
+                                               reversed(s.split(','))))
+            self.wordinfo = {_word_from_db_key(k): from_string(v)
+                             for k, v in data.items() if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
         else:
@@ -664,12 +662,15 @@ class CDBClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+        self._probcache = {}
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-        items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
+        items.extend((_db_key(word),
+                      '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        with open(self.filename, 'wb') as f:
+            cdb.cdb_make(f, items)
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
-- 
2.43.0


From 6027a7937c3e1c6b4157c58abd597852ae8cc125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 18/40] fix: SlurpingClassifier could neither score nor learn a
 message

---
 sbclassifier/classifiers/slurping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..5260c78 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -171,8 +171,8 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        needs_to_slurp = all((len(clues) < MAX_DISCRIMINATORS,
+                              is_unsure(prob), slurp_wordstream))
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
             slurp_tokens.extend([w for (w, _p) in clues])
@@ -221,9 +221,9 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        self.urlCorpus = ExpiryFileCorpus(age, dir, cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
-- 
2.43.0


From 23c77a60163473ab84cdce8082aab6e029fbee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 19/40] fix: Corpus.items() failed because the caches had no
 items()

---
 sbclassifier/corpora/caches.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 621ad63..203e14d 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -40,6 +40,9 @@ class Cache:
     def values(self):
         raise NotImplemented
 
+    def items(self):
+        raise NotImplemented
+
     def put(self, key, value):
         raise NotImplemented
 
@@ -85,6 +88,9 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         if key not in self.data:
@@ -152,6 +158,10 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self._message_from_path(f, message_id=f))
+                for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
-- 
2.43.0


From cd4de0acef943de9979b7ecf3f2d1230e988c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 20/40] fix: FileCache wrote and removed files outside of its
 directory

---
 sbclassifier/corpora/caches.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 203e14d..0c59778 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -130,9 +130,15 @@ class FileCache(NaiveCache):
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
 
+    def _is_valid_key(self, key):
+        # A key must be the name of a file directly in the directory.
+        return (key not in ('', os.curdir, os.pardir)
+                and os.path.basename(key) == key
+                and fnmatch.fnmatch(key, self.namefilter))
+
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
-                and fnmatch.fnmatch(filename, self.namefilter))
+                and self._is_valid_key(filename))
 
     def _message_from_path(self, filename, *args, **kw):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
@@ -163,7 +169,7 @@ class FileCache(NaiveCache):
                 for f in self.keys())
 
     def put(self, key, value):
-        if not fnmatch.fnmatch(key, self.namefilter):
+        if not self._is_valid_key(key):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
@@ -180,6 +186,9 @@ class FileCache(NaiveCache):
 
     def pop(self, key):
         result = super().pop(key)
+        if not self._is_valid_key(key):
+            # No such message can be in this cache.
+            return result
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
         try:
-- 
2.43.0


From 4ae083a2d264528c26c24eb848e952e271a06cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 21/40] fix: the representation of a FileCorpus raised
 AttributeError

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..1df901c 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -67,10 +67,11 @@ class FileCorpus(Corpus):
     def __repr__(self):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
-        lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
+        lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
         return ('<{} object at {:8.8x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
-                                           self.directory, nummsgs, s, lst)
+                                           self.message_cache.directory,
+                                           nummsgs, s, lst)
 
 
 class ExpiryFileCorpus(FileCorpus):
-- 
2.43.0


From 8df0dc4a649899e9e43c982161f6f8ab48fc5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 22/40] fix: removing the expired messages of a corpus always
 failed

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 1df901c..b7f7721 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -96,11 +96,12 @@ class ExpiryFileCorpus(FileCorpus):
         # during the loop.
         for key in list(self.keys()):
             msg = self[key]
-            timestamp = msg.createTimestamp()
+            path = os.path.join(self.message_cache.directory, key)
+            timestamp = os.stat(path).st_ctime
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                self.remove_message(msg, emit_signal=False)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
-- 
2.43.0


From 24276401a0378502d4a14b622f0966e342ba8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 23/40] fix: subnets() ignored the prefix lengths

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From 8f3fc27ea2bbdbc0ddcc179ed858a0fd83b4cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 24/40] fix: trailing punctuation was not removed from URLs

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..0aed205 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -299,7 +299,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
-- 
2.43.0


From c59708d0a498c242b8170c4342268c1fff9534f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 25/40] fix: HTML tags and entities in a message body raised
 TypeError

---
 sbclassifier/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..d66acbb 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1092,9 +1092,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return chr(int(m.group(1))).encode('utf-8')
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1545,7 +1545,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1553,7 +1553,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From 65ff7a9d4ce64236969022d38ea1120e2576f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 26/40] fix: long words raised TypeError

---
 sbclassifier/tokenizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index d66acbb..224ad66 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -808,7 +808,7 @@ def imageparts(msg):
     return [part for part in msg.walk()
             if part.get_content_type().startswith('image/')]
 
-has_highbit_char = re.compile(rb"[\x80-\xff]").search
+has_highbit_char = re.compile(r"[^\x00-\x7f]").search
 
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
@@ -867,12 +867,15 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
         yield word
 
     elif n >= 3:
-        # A long word.
+        # A long word. It consists of bytes if it is from the body of a
+        # message, and it is a string if it is from a header.
+        if isinstance(word, bytes):
+            word = word.decode('latin-1')
 
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
+        if n < 40 and '.' in word and word.count('@') == 1:
             p1, p2 = word.split('@')
             yield 'email name:' + p1
             yield 'email addr:' + p2
-- 
2.43.0


From df735635059ddd78dd7fbaea530ca54be648118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 27/40] fix: a payload that cannot be decoded raised TypeError

---
 sbclassifier/tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 224ad66..8c30150 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1005,7 +1005,7 @@ non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
 # about line length, but other than that are strict.  Group 1 is non-empty
 # after a match iff the last significant char on the line is '='; in that
 # case, it must be the last line of the base64 section.
-base64_re = re.compile(r"""
+base64_re = re.compile(rb"""
     [ \t]*
     [a-zA-Z0-9+/]*
     (=*)
@@ -1026,7 +1026,7 @@ def try_to_repair_damaged_base64(text):
         if m.group(1):
             # This line has a trailing '=' -- the base64 part is done.
             break
-    base64text = ''
+    base64text = b''
     if i:
         base64 = text[:i]
         try:
@@ -1515,6 +1515,8 @@ class Tokenizer:
                 yield "control: couldn't decode"
                 text = part.get_payload(decode=False)
                 if text is not None:
+                    if isinstance(text, str):
+                        text = text.encode('utf-8', 'replace')
                     text = try_to_repair_damaged_base64(text)
 
             if text is None:
-- 
2.43.0


From 5c9a950e699c66d70fdb0893d5cb056a8b252bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 28/40] fix: file names were not tokenized

---
 sbclassifier/strippers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 0aed205..1b5634b 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -49,9 +49,10 @@ html_style_start_re = re.compile(rb"""
     < \s* style\b [^>]* >
 """, re.VERBOSE)
 
+fname_piece_re = re.compile(r"[;?:@&=+,$.]")
 urlsep_re = re.compile(rb"[;?:@&=+,$.]")
 
-fname_sep_re = re.compile(rb'[/\\:]')
+fname_sep_re = re.compile(r'[/\\:]')
 
 url_fancy_re = re.compile(rb"""
     \b                      # the preceeding character must not be alphanumeric
@@ -101,7 +102,7 @@ def crack_filename(fname):
     for component in components:
         if morethan1:
             yield "fname comp:" + component
-        pieces = urlsep_re.split(component)
+        pieces = fname_piece_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
                 yield "fname piece:" + piece
@@ -214,7 +215,7 @@ class UUencodeStripper(Stripper):
                           uuencode_end_re.search)
 
     def tokenize(self, m):
-        mode, fname = m.groups()
+        mode, fname = (x.decode('latin-1') for x in m.groups())
         return (['uuencode mode:%s' % mode] +
                 ['uuencode:%s' % x for x in crack_filename(fname)])
 
-- 
2.43.0


From 31e4db0477fa1814a9d2ac403be4e328ff13d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 29/40] fix: the headers to skip were taken as one pattern

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 8c30150..7495c30 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -46,7 +46,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
-- 
2.43.0


From ca2f57bb7b7612accca6b21581e0a0569608e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 30/40] fix: the tokenizer ignored its options for basic header
 tokens

---
 sbclassifier/tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7495c30..09c0b31 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1132,8 +1132,9 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
-                               self.tokenize_body(message))
+        headers = self.tokenize_headers(message, basic_header_tokenize,
+                                        basic_header_tokenize_only)
+        return itertools.chain(headers, self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
                          basic_header_tokenize=BASIC_HEADER_TOKENIZE,
-- 
2.43.0


From 0e68b6518c872ff5d6ead508277ff985dcdbf880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 31/40] fix: a surrogate in a token raised UnicodeEncodeError

---
 sbclassifier/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 09c0b31..d8171b7 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -780,7 +780,8 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            yield (x if isinstance(x, bytes)
+                   else bytes(x, 'utf-8', 'backslashreplace'))
     return converted_f
 
 
-- 
2.43.0


From 1a956961979d6c3ff74dc933011911b7f7db596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 32/40] fix: encoded or non-ASCII headers raised TypeError or
 AttributeError

---
 sbclassifier/strippers.py |  4 +++-
 sbclassifier/tokenizer.py | 29 +++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 1b5634b..52852a8 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+from email.utils import collapse_rfc2231_value
 import math
 import re
 import urllib
@@ -113,6 +114,7 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
+        x = collapse_rfc2231_value(x)
         yield 'content-type/type:' + x.lower()
 
     try:
@@ -127,7 +129,7 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index d8171b7..00e1b76 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -790,6 +790,22 @@ def convert_to_bytes(f):
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
+def header_text(x, charset):
+    """Returns a decoded part of a header as a string.
+
+    `x` and `charset` are an element of the list that is returned by
+    :func:`email.header.decode_header`, so `x` may be a string already.
+
+    """
+    if isinstance(x, str):
+        return x
+    try:
+        return x.decode(charset or 'latin-1', 'replace')
+    except (LookupError, ValueError):
+        # The charset is unknown, or it is not the charset of a text.
+        return x.decode('latin-1')
+
+
 def textparts(msg):
     """Return a set of all msg parts with content maintype 'text'."""
     return set([part for part in msg.walk()
@@ -1177,7 +1193,7 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
+                    for w in subject_word_re.findall(str(v)):
                         for t in tokenize_word(w):
                             yield "%s:%s" % (k, t)
             if basic_header_tokenize_only:
@@ -1234,7 +1250,7 @@ class Tokenizer:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
             # <= 2.3.4 and 2.4.0 (fixed in 2.5)
-            x = x.replace('\r', ' ')
+            x = header_text(x, subjcharset).replace('\r', ' ')
             for w in subject_word_re.findall(x):
                 for t in tokenize_word(w):
                     yield 'subject:' + t
@@ -1266,6 +1282,7 @@ class Tokenizer:
                             ValueError):
                         subjcharsetlist = [(name, 'invalid')]
                     for name, charset in subjcharsetlist:
+                        name = header_text(name, charset)
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
@@ -1353,7 +1370,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1363,7 +1380,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1373,7 +1390,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1394,7 +1411,7 @@ class Tokenizer:
 
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
-        msgid = msg.get("message-id", "")
+        msgid = str(msg.get("message-id", ""))
         m = message_id_re.match(msgid)
         if m:
             # looks okay, return the hostname
-- 
2.43.0


From 3da66a4c930908b5bc5bf1e292196e8c5fcf27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 33/40] fix: a badly encoded parameter of a header raised
 UnicodeError

---
 sbclassifier/strippers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 52852a8..6e59b92 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -114,8 +114,10 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
-        x = collapse_rfc2231_value(x)
-        yield 'content-type/type:' + x.lower()
+        try:
+            yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
+        except ValueError:
+            yield 'content-type/type:invalid_unicode'
 
     try:
         for x in msg.get_charsets(None):
@@ -136,7 +138,9 @@ def crack_content_xyz(msg):
         if fname is not None:
             for x in crack_filename(fname):
                 yield 'filename:' + x
-    except TypeError:
+    except (TypeError, ValueError):
+        # ValueError is for a file name in an encoding that cannot replace bad
+        # bytes; TypeError is a
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
         # and
-- 
2.43.0


From 1c0f2cf50025fc9a453893f3edf192c5eb1413f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 34/40] fix: an empty message ID could be changed

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index b6c82b2..bbd3dc3 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -245,7 +245,7 @@ class Message(_Message):
     #     self.__dict__.update(new_me.__dict__)
 
     def set_id(self, new_id):
-        if self.messageid and self.messageid != new_id:
+        if self.messageid is not None and self.messageid != new_id:
             raise ValueError('message ID has already been set, cannot be'
                              ' changed: {!r} to {!r}'.format(self.messageid, new_id))
         if new_id is None:
-- 
2.43.0


From 3de59d593ae0000d7b4944485dbc581c6bd191e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 35/40] fix: a null character in the name of a charset raised
 ValueError

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 6e59b92..1afd957 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -123,7 +123,7 @@ def crack_content_xyz(msg):
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except UnicodeEncodeError:
+    except ValueError:
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
-- 
2.43.0


From 2cf30f4c561e3c2cfc0fd9e1e876b9004f964ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 36/40] fix: a message that cannot be written is not kept in
 the cache

---
 sbclassifier/corpora/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 0c59778..2a70fa3 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -173,10 +173,11 @@ class FileCache(NaiveCache):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
-        super().put(key, value)
         logging.debug('Storing %s to file', key)
+        content = value.as_bytes()
         with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(value.as_bytes())
+            f.write(content)
+        super().put(key, value)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From e79823352d27fa51137825306d49bfac25a6b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 37/40] fix: the representation of a file corpus raised
 ValueError

---
 sbclassifier/corpora/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index b7f7721..63a8efa 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -68,7 +68,7 @@ class FileCorpus(Corpus):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
         lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
-        return ('<{} object at {:8.8x}, directory: {},'
+        return ('<{} object at {:08x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.message_cache.directory,
                                            nummsgs, s, lst)
-- 
2.43.0


From d3e81ca6f99c81b77685beb91f5c33f27baaa2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 38/40] fix: a pickle whose file cannot be renamed was copied
 over the old one

shutil.move() copies a file if renaming it fails for any reason, which
empties the target first. os.replace() fails instead.
---
 sbclassifier/safepickle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 6943eac..ed5e60c 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -7,7 +7,6 @@
 # Software Foundation License; for more information, see LICENSE.txt.
 import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -31,8 +30,9 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
         # Be as defensive as possible: dump the pickle data to a temporary file
         # first, then move the data to the requested filename second. Moving
         # a file replaces the target in one step only on the same filesystem,
-        # so the temporary file is created next to the target.
+        # so the temporary file is created next to the target. (If the file
+        # cannot be renamed, shutil.move() would copy it instead.)
         directory = os.path.dirname(os.path.abspath(filename))
         with NamedTemporaryFile(dir=directory, delete=False) as fp:
             pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        os.replace(fp.name, filename)
-- 
2.43.0


From e93828d8f9f90beac1cc34d3a54f4eeea5eeddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 39/40] fix: storing a database classifier saves it, and
 loading it again keeps what was stored

dbm.ndbm writes to the file only when it is closed and has no sync(), so
store() saved nothing, and load() opened the file before the old handle
wrote to it: with a few hundred words everything was lost.
---
 sbclassifier/classifiers/storage.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 5395010..b5172ee 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -208,7 +208,9 @@ class ShelveClassifier(StoredClassifierBase):
         super().__init__()
         self.statekey = STATE_KEY
         self.flag = flag
-        self.filename = filename
+        # The file is opened again by store() and load().
+        self.filename = os.path.abspath(filename)
+        self.db = None
         self.load()
 
     def close(self):
@@ -223,6 +225,10 @@ class ShelveClassifier(StoredClassifierBase):
         #     self.db = shelve.Shelf(self.dbm)
         #
         # Does having a shelved DBM afford any benefit over just a shelf?
+        #
+        # Some kinds of DBM write to the file only when they are closed.
+        if self.db is not None:
+            self.db.close()
         self.db = shelve.open(self.filename, self.flag)
         if self.statekey in self.db:
             t = self.db[self.statekey]
@@ -269,7 +275,10 @@ class ShelveClassifier(StoredClassifierBase):
         self.changed_words.clear()
         # Update the global state, then do the actual save.
         self._write_state_key()
-        self.db.sync()
+        # Not every kind of DBM can be synchronized (dbm.ndbm cannot), but
+        # closing one saves it. Opening it again must not clear it.
+        self.db.close()
+        self.db = shelve.open(self.filename, self.flag.replace('n', 'c'))
 
     def _write_state_key(self):
         self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
-- 
2.43.0


From 3c77363363859032540ac1a1ca020d33502a43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 40/40] fix: tokenize a message whose header has a parameter
 both whole and in parts

The email package cannot sort the parts of such a parameter and raises
TypeError for any access to the parameters of the header.
---
 sbclassifier/strippers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 1afd957..b19c271 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -112,18 +112,18 @@ def crack_filename(fname):
 def crack_content_xyz(msg):
     yield 'content-type:' + msg.get_content_type()
 
-    x = msg.get_param('type')
-    if x is not None:
-        try:
+    try:
+        x = msg.get_param('type')
+        if x is not None:
             yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
-        except ValueError:
-            yield 'content-type/type:invalid_unicode'
+    except (TypeError, ValueError):
+        yield 'content-type/type:invalid_unicode'
 
     try:
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except ValueError:
+    except (TypeError, ValueError):
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
-- 
2.43.0

