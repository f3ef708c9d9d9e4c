From c7658e7d62a07b75a73e22da4b3aaf3f97096eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 001/119] fix: an escaped backslash in a unicode set does not
 start a hex escape

---
 lib/sldr/UnicodeSets.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index a9957b3..f975b21 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -25,8 +25,9 @@
 import unicodedata
 import re
 
-hexescre = re.compile(r"(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
-hexgre = re.compile(r"\\u\{([0-9a-fA-F]+)\}")
+# an escaped backslash is matched first (without a group), so that it never starts a hex escape
+hexescre = re.compile(r"\\\\|(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
+hexgre = re.compile(r"\\\\|\\u\{([0-9a-fA-F]+)\}")
 simpleescs = {
     'a' : "\u0007",
     'b' : "\u0008",
@@ -188,8 +189,14 @@ def flatten(s, normal=None):
         yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
+def _unhex(m):
+    if m.lastindex is None:
+        return m.group(0)
+    return escapechar(chr(int(m.group(m.lastindex), 16)))
+
+
 def struni(s, groups=None):
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = hexescre.sub(_unhex, s)
     s = simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s)
     if groups is not None:
         s = groupsre.sub(lambda m:groups[int(m.group(1)) - 1], s)
@@ -199,9 +206,10 @@ def struni(s, groups=None):
 def parse(s, normal=None):
     '''Returns a sequence of UnicodeSet'''
     # convert escapes
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = hexescre.sub(_unhex, s)
     # don't flatten \\ escapes here since we need to differentiate with action chars {}[]
-    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}", s)
+    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}"
+                            if m.lastindex else m.group(0), s)
     s = s.replace(' ', '')
     res = UnicodeSetSequence()
     i = 0
-- 
2.43.0


From f9a4bfb519715b8b40f4c8e3b3c63f80e69cb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 002/119] fix: keep an escaped space in a unicode set

---
 lib/sldr/UnicodeSets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index f975b21..5d68f9f 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -39,6 +39,7 @@ simpleescs = {
     '\\' : "\u005C"
 }
 simpleescsre = re.compile(r"\\([^0-9])")
+spacesre = re.compile(r"(\\.)| ", re.S)
 groupsre = re.compile(r"\\([0-9]+)")
 
 
@@ -192,7 +193,9 @@ def flatten(s, normal=None):
 def _unhex(m):
     if m.lastindex is None:
         return m.group(0)
-    return escapechar(chr(int(m.group(m.lastindex), 16)))
+    res = chr(int(m.group(m.lastindex), 16))
+    # a space has to be escaped or it would be taken for a separator
+    return "\\ " if res == " " else escapechar(res)
 
 
 def struni(s, groups=None):
@@ -210,7 +213,7 @@ def parse(s, normal=None):
     # don't flatten \\ escapes here since we need to differentiate with action chars {}[]
     s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}"
                             if m.lastindex else m.group(0), s)
-    s = s.replace(' ', '')
+    s = spacesre.sub(lambda m:m.group(1) or "", s)
     res = UnicodeSetSequence()
     i = 0
     currgroup = -1
-- 
2.43.0


From be969aa79b7e1118afcb581418a45a8486b6584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 003/119] fix: find the unescaped end of a set or string in a
 unicode set

---
 lib/sldr/UnicodeSets.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 5d68f9f..3823863 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -231,6 +231,14 @@ def parse(s, normal=None):
     return res
 
 
+def _findclose(s, c, ind):
+    '''Returns the index of the first c at or after ind that is not escaped.'''
+    e = s.index(c, ind)
+    while (e - len(s[:e].rstrip('\\'))) % 2:
+        e = s.index(c, e+1)
+    return e
+
+
 def parseitem(s, ind, lastitem, end, usegroups=False):
     '''Parses a single UnicodeSet or character. Doesn't handle property sets or variables, yet.'''
     if ind == end:
@@ -243,9 +251,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             ind += 1
         item = None
         res.setclass(True)
-        e = s.index(']', ind)
-        while e > 0 and s[e-1] == '\\' and s[e-2] != '\\':
-            e = s.index(']', e+1)
+        e = _findclose(s, ']', ind)
         while ind < e:
             (ind, item, nextitem) = parseitem(s, ind, item, e)
             if item:
@@ -307,9 +313,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             else:
                 res.add(op)
     elif s[ind] == '{':
-        e = s.index('}', ind+1)
-        while e > 0 and s[e-1] == '\\':
-            e = s.index('}', e+1)
+        e = _findclose(s, '}', ind+1)
         res.add(simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s[ind+1:e]))
         ind = e + 1
     elif s[ind] == '\\':
-- 
2.43.0


From 21250457cfcadf4a80a90a754d86c487c9568354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 004/119] fix: recognise the whole of the supplementary private
 use planes

---
 lib/sldr/ldml_exemplars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index db0cf76..0bcf94b 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -162,9 +162,9 @@ class UCD(object):
         numeric_char = ord(char)
         if 0xE000 <= numeric_char <= 0xF8FF:
             return True
-        if 0xFFF80 <= numeric_char < 0xFFFFE:
+        if 0xF0000 <= numeric_char < 0xFFFFE:
             return True
-        if 0x10FF80 <= numeric_char < 0x10FFFE:
+        if 0x100000 <= numeric_char < 0x10FFFE:
             return True
         return False
 
-- 
2.43.0


From 1b880314e5a547dd37419213ae1423e97a189d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 005/119] fix: flatten yields every string of a sequence of
 unicode sets

---
 lib/sldr/UnicodeSets.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 3823863..385ef4c 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -163,12 +163,13 @@ class UnicodeSet(set):
         self.isclass = state
 
 
-def _expand(p, vals, ind, indval):
-    if vals[ind][indval].startswith("\\"):
-        g = p.group(int(vals[ind][indval][1]))
-        return "".join(_expand(p, vals, i, indices[i]) for i in range(g[0], g[1]))
+def _expand(p, vals, ind, indices):
+    val = vals[ind][indices[ind]]
+    if groupsre.fullmatch(val):
+        g = p.groups[int(val[1:]) - 1]
+        return "".join(_expand(p, vals, i, indices) for i in range(g[0], g[1]))
     else:
-        return vals[ind][indval]
+        return val
 
 
 def flatten(s, normal=None):
@@ -178,6 +179,7 @@ def flatten(s, normal=None):
     num = len(vals)
     indices = [0] * num
     while True:
+        yield "".join(_expand(p, vals, i, indices) for i in range(num))
         for i in range(num):
             if indices[i] == lens[i] - 1:
                 indices[i] = 0
@@ -186,8 +188,6 @@ def flatten(s, normal=None):
                 break
         else:
             return
-        res = []
-        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
 def _unhex(m):
-- 
2.43.0


From 68e7188eee80ec778a1a5a6e4e2dd4c88be9419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 006/119] fix: a mark after a space is isolated

---
 lib/sldr/UnicodeSets.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 385ef4c..1dda2f9 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -85,12 +85,10 @@ def _hex_escape(text, ucd):
     modified_text = ''
     is_isolated = True
     for char in text:
+        is_space = char == ' '
         if ucd.need_hex_escape(char, is_isolated):
             char = _escape_using_hex(char)
-        if char == ' ':
-            is_isolated = True
-        else:
-            is_isolated = False
+        is_isolated = is_space
         modified_text += char
     return modified_text
 
-- 
2.43.0


From 34566f66ffacec78dad4a90daba695ac5aad1ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:33 +0000
Subject: [PATCH 007/119] fix: move every ignorable base to auxiliary, not only
 those before the first mark

---
 lib/sldr/ldml_exemplars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 0bcf94b..f7bb9e9 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -598,7 +598,7 @@ class Exemplars(object):
         """Move Default_Ignorable_Code_Point characters to auxiliary."""
         for exemplar in list(self.clusters.keys()):
             if exemplar.base == '':
-                return
+                continue
             if Char.hasBinaryProperty(exemplar.base, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
                 # The base is a Default_Ignorable_Code_Point
                 # which needs to go in the auxiliary list.
-- 
2.43.0


From 5582fc55484e40ce4dc50f7a7d777b141c07da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 008/119] fix: look for a multigraph at every position, also
 right after another one

---
 lib/sldr/ldml_exemplars.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index f7bb9e9..26862d7 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -701,6 +701,7 @@ class Exemplars(object):
             # Look for multigraphs (from length of max_multigraph_length down to 1) character(s)
             # of multigraphs already specified in a LDML file.
             # Longest possible matches are looked at first.
+            found_multigraph = False
             for multigraph_length in range(self.max_multigraph_length, 0, -1):
                 multigraph = text[i:i + multigraph_length]
 
@@ -711,8 +712,13 @@ class Exemplars(object):
                     exemplar = Exemplar(multigraph)
                     self.clusters[exemplar] += 1
                     i += multigraph_length
+                    found_multigraph = True
                     break
-            
+
+            # Another multigraph may follow.
+            if found_multigraph:
+                continue
+
             if maxmultigraphs:
                 #swap max multigraph length to 4 to start
                 for multigraph_length in range(4, 0, -1):
@@ -721,10 +727,7 @@ class Exemplars(object):
                     self.all_potential_multigraphs[exemplar] += 1
 
             # No multigraphs were found at this position,
-            # so continue processing a single character
-            # if we have not gone beyond the end of the text.
-            if not i < len(text):
-                break
+            # so continue processing a single character.
 
             char = text[i]
 
-- 
2.43.0


From e0c9229d57583c0754e6701985bcbf3604d64db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 009/119] fix: split an exemplar only once in a pass, so that
 its parts are not counted twice

---
 lib/sldr/ldml_exemplars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 26862d7..05dd607 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -493,8 +493,9 @@ class Exemplars(object):
         # If the exemplar is already a separate mark,
         # the base of the exemplar will be an empty string,
         # and therefore no further processing is needed
-        # on that exemplar.
-        if exemplar.base == '':
+        # on that exemplar. Likewise if the exemplar has just been split
+        # on another of its marks (the parts will be looked at in their turn).
+        if exemplar.base == '' or exemplar not in self.clusters:
             return
 
         mark = exemplar.trailers[index]
-- 
2.43.0


From d5fd14939eacf18bc5d7d6cdc2f6be7556060dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 010/119] fix: keep the lower case of a base that has a nukta

---
 lib/sldr/ldml_exemplars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 05dd607..9a3fc9f 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -777,7 +777,7 @@ class Exemplars(object):
                         # A Mark such as a nukta was found, so the base continues,
                         # as well as the cluster.
                         base_length += 1
-                        base = text[i:i + base_length]
+                        base = char + text[i + 1:i + base_length]
                     continue
                 else:
                     # No more marks, so the end of the cluster has been reached.
-- 
2.43.0


From 02b24a0fc7b44b2e61777b1fef42ee4d56b06423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 011/119] fix: equal sort keys compare equal and hash alike

---
 lib/sldr/collation.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7e64c67..e4a361d 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -156,13 +156,8 @@ class SortKey(list):
 
     def cmp(self, other):
         ''' Returns the level of the difference and negative if self < other '''
-        return diffLevel(other, self)
-        for i, z in enumerate(zip_longest(self, other)):
-            if z[0] < z[1]:
-                return -(i+1)
-            elif z[0] > z[1]:
-                return i+1
-        return 0
+        res = diffLevel(other, self)
+        return 0 if res == 4 else res
 
     def __lt__(self, other):
         return self.cmp(other) < 0
@@ -189,7 +184,7 @@ class SortKey(list):
         return self.__class__([v.copy() for v in self])
 
     def __hash__(self):
-        return hash(tuple(tuple(x) for x in self))
+        return hash(tuple(tuple(stripzero(x)) for x in self))
 
 
 class Collation(UserDict):
-- 
2.43.0


From 7fe5336aca12fd38065d12ad458ada781a13f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 012/119] fix: adding sort keys gives a sort key, in place too

---
 lib/sldr/collation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index e4a361d..90ea40a 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -145,8 +145,8 @@ class SortKey(list):
     """ List of subkeys for each level. Each subkey is a list of values """
     def add(self, other):
         if other is None:
-            return self[:]
-        return [a[0]+a[1] for a in zip_longest(self, other)]
+            return self.copy()
+        return self.__class__([a[0]+a[1] for a in zip_longest(self, other, fillvalue=[])])
 
     def append(self, other):
         self[:] = self.add(other)
@@ -175,7 +175,8 @@ class SortKey(list):
         return self.cmp(other) <= 0
 
     def __iadd__(self, other):
-        return self.append(other)
+        self.append(other)
+        return self
 
     def __ne__(self, other):
         return self.cmp(other) != 0
-- 
2.43.0


From 0624e8c691557ee13d8adccdd54e106b06b7efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 013/119] fix: unescape every escape of a tailoring, exactly
 once

---
 lib/sldr/collation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 90ea40a..6e455cc 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -35,10 +35,12 @@ def escape(s, allchars=False):
 
 def unescape(s):
     '''Parse tailoring escaped characters into normal Unicode'''
-    s = re.sub(r'(?:\\U([0-9A-F]{8})|\\u([0-9A-F]{4}))', lambda m: chr(int(m.group(m.lastindex), 16)), s, re.I)
-    s = re.sub(r'\\(.)', r'\1', s)
-    s = s.replace("''", "'")
-    return s
+    def unesc(m):
+        if m.lastindex is None:
+            return "'"
+        return m.group(3) or chr(int(m.group(m.lastindex), 16))
+    # all in one pass, so that nothing is unescaped twice
+    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", unesc, s)
 
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
-- 
2.43.0


From ea3a516373ab49e92eba62cca7f5ba6e13f595cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 014/119] fix: escaped characters of a tailoring are not taken
 for syntax

---
 lib/sldr/collation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 6e455cc..4c2eb19 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -204,12 +204,14 @@ class Collation(UserDict):
     def parse(self, string):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
+        # turn escaped characters into hex escapes so that they are not taken for syntax
+        string = re.sub(r'\\([^uU])', lambda m: "\\U{:08X}".format(ord(m.group(1))), string)
         string = re.sub(r'^#.*$', '', string, flags=re.M)
         for n, run in enumerate(string.split('&')):
             bits = [x.strip() for x in re.split(r'([<=]+)', run)]
-            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", unescape(bits[0]))
+            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0])
             if m:
-                base = m.group(2)
+                base = unescape(m.group(2))
                 before = 0
                 if m.group(1):
                     before = int(m.group(1))
@@ -221,14 +223,14 @@ class Collation(UserDict):
                 else:
                     l = s.count('<')
                 k = re.sub(r'\s#.*$', '', bits[i+1], flags=re.M)
-                key = unescape(k)
-                exp = key.find("/")
+                exp = k.find("/")
                 expstr = ""
                 if exp > 0:
-                    expstr = key[exp+1:].strip()
-                    key = key[:exp].strip()
+                    expstr = unescape(k[exp+1:].strip())
+                    k = k[:exp].strip()
                 else:
                     exp = None
+                key = unescape(k)
                 while key in self:
                     key += " "
                 self[key] = CollElement(base, l, before)
-- 
2.43.0


From 3a9d726c639a0d8d99726ff51b36e47b210466b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 015/119] fix: a comment in a tailoring may follow a reset and
 hold any character

---
 lib/sldr/collation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 4c2eb19..a6f41f9 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -204,9 +204,9 @@ class Collation(UserDict):
     def parse(self, string):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
-        # turn escaped characters into hex escapes so that they are not taken for syntax
-        string = re.sub(r'\\([^uU])', lambda m: "\\U{:08X}".format(ord(m.group(1))), string)
-        string = re.sub(r'^#.*$', '', string, flags=re.M)
+        # remove comments, and turn escaped characters into hex escapes so that they are not taken for syntax
+        string = re.sub(r'\\([^uU])(?:\s+#.*$)?|^#.*$|(?<=[^<=&/\s])\s+#.*$',
+                        lambda m: "\\U{:08X}".format(ord(m.group(1))) if m.group(1) else "", string, flags=re.M)
         for n, run in enumerate(string.split('&')):
             bits = [x.strip() for x in re.split(r'([<=]+)', run)]
             m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0])
-- 
2.43.0


From c87bd9de10edb64d459cca948e433f4b4932e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:15 +0000
Subject: [PATCH 016/119] fix: a character that the collation table does not
 know is skipped, not the rest of the text

---
 lib/sldr/collation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index a6f41f9..b0e3afe 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -63,6 +63,9 @@ def ducetSortKey(d, k, extra=None, fn=None):
                 key = dlambda(k[:i])
         if key is None or not len(key):
             i -= 1
+            if i == 0:      # nothing is known of this character, skip it
+                k = k[1:]
+                i = len(k)
             continue
         try:
             res = [res[j]+list(key[j]) for j in range(3)]
-- 
2.43.0


From d7f95db68ccdec4a2389b25a24f2ae792b681e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:58 +0000
Subject: [PATCH 017/119] fix: a base without weights and an expansion that is
 tailored later do not crash a collation

---
 lib/sldr/collation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index b0e3afe..4e49a8a 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -55,7 +55,7 @@ def ducetSortKey(d, k, extra=None, fn=None):
         singlechar = True
     while i > 0:
         if extra and k[:i] in extra:
-            key = extra[k[:i]].key
+            key = getattr(extra[k[:i]], 'key', None)    # no key yet if it is tailored later
         else:
             key = fn(k[:i])
         if key is None or not len(key):
@@ -632,6 +632,8 @@ class CollElement(object):
             basekey = self.key.copy()
         # Update the copied base SortKey to immediately follow the base
         if self.level < 4 :
+            if not len(basekey[self.level-1]):      # nothing is known of the base
+                basekey[self.level-1].append(0)
             basekey[self.level-1][-1] += inc if not self.before or self.before != self.level else -beforeshift 
         if not self.exp and b is not None and b.exp:
             self.exp = b.exp
-- 
2.43.0


From 8c30a8879e6aa37c326b1ffb67d678924f918460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 018/119] fix: white space in a tailoring is escaped

---
 lib/sldr/collation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 4e49a8a..3f2b47a 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -13,7 +13,7 @@ def escape(s, allchars=False):
     escs = '!"#$%&()*+,-./:;<=>?@[\\]^_`{|}~'
     lastbase = False
     for k in s:
-        if k in escs:
+        if k in escs or k.isspace():
             res += "\\" + k
             continue
         elif k == "'":
@@ -40,7 +40,7 @@ def unescape(s):
             return "'"
         return m.group(3) or chr(int(m.group(m.lastindex), 16))
     # all in one pass, so that nothing is unescaped twice
-    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", unesc, s)
+    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", unesc, s, flags=re.S)
 
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
-- 
2.43.0


From 633152536b6829fae57d4d7e187be97f21003702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 019/119] fix: only a primary element becomes the base of a
 [before 1] of a simple collation

---
 lib/sldr/collation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 3f2b47a..3f04be7 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -550,8 +550,9 @@ class Collation(UserDict):
         outlist = sorted(self.keys(), key=lambda k:self[k].key)
         inlist = sorted(set((k for k in self.keys() if k in self.ducet)), key=lambda k:ducetSortKey(self.ducet, k))
         for m in SequenceMatcher(a=inlist, b=outlist).get_opcodes():
-            if m[0] in ("replace", "insert") and m[4] < len(outlist):
-                newbase = outlist[m[4]]
+            # only a primary element that is in the default order can be the base of a [before 1]
+            newbase = next((k for k in outlist[m[4]:] if self[k].level == 1 and k in self.ducet), None)
+            if m[0] in ("replace", "insert") and newbase is not None:
                 bcoll = self[outlist[m[3]]]
                 if bcoll.base in self:
                     ocoll = self[bcoll.base]
-- 
2.43.0


From d214188975e99a2fb3da9e9d7e4ec8cf5a3d54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 020/119] fix: the level at which entries of the collation
 table differ, and reading the table

---
 lib/sldr/collation.py |  2 +-
 lib/sldr/ducet.py     | 34 +++++++++++-----------------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 3f04be7..7dea102 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -132,7 +132,7 @@ def readDucet(path="") :
     try :
         with open(ducetpath, 'r') as f :
             for contentLine in f.readlines():
-                parts = contentLine.split(';')
+                parts = contentLine.split('#')[0].split(';')
                 if len(parts) != 2 or parts[0].strip().startswith("@"):
                     continue
                 key = "".join(chr(int(x, 16)) for x in keyre.findall(parts[0]))
diff --git a/lib/sldr/ducet.py b/lib/sldr/ducet.py
index b12e885..d54466d 100644
--- a/lib/sldr/ducet.py
+++ b/lib/sldr/ducet.py
@@ -13,11 +13,11 @@ def readDucet(path="") :
         return {}
 
     result = {}
-    keyre = re.compile(r'([0-9A-F]{4})', re.I)
+    keyre = re.compile(r'([0-9A-F]{4,6})', re.I)
     valre = re.compile(r'\[[.*]([0-9A-F]{4})\.([0-9A-F]{4})\.([0-9A-F]{4})\]', re.I)
 
     for lineno, contentLine in enumerate(content):
-        if contentLine[0] == '#':
+        if contentLine[0] in '#@':
             continue
         parts = contentLine.split(';')
         if len(parts) != 2:
@@ -55,32 +55,20 @@ def ducetCompare(ducetDict, str1, str2) :
 
     minSKlen = min(len(sortKey1), len(sortKey2))
 
-    level1 = 1
-    level2 = 1
     for i in range(minSKlen) :
         if sortKey1[i] < sortKey2[i] :
-            return min(level1, level2)
+            return i + 1
         elif sortKey1[i] > sortKey2[i] :
-            return min(level1, level2) * -1
-        if sortKey1[i] == 0 :
-            level1 += 1
-        if sortKey2[i] == 0 :
-            level2 += 1
+            return -(i + 1)
     
     if multigraph:
         minSKlenb = min(len(sortKey1b), len(sortKey2b))
 
-        level1 = 1
-        level2 = 1
         for i in range(minSKlenb) :
             if sortKey1b[i] < sortKey2b[i] :
-                return min(level1, level2)
+                return i + 1
             elif sortKey1b[i] > sortKey2b[i] :
-                return min(level1, level2) * -1
-            if sortKey1b[i] == 0 :
-                level1 += 1
-            if sortKey2b[i] == 0 :
-                level2 += 1
+                return -(i + 1)
 
     # sort keys are equal as far as they go
     return _cmp(len(sortKey1), len(sortKey2)) * 4
@@ -116,7 +104,7 @@ def _generateSortKey(rawSortKey, separate=False) :
     if separate:
         return list(leveledResult)
     else:
-        return [x + (0,) for x in leveledResult]
+        return [tuple(v for v in x if v != 0) + (0,) for x in leveledResult]    # zero weights do not count
 
 
 ### [.1C47.0020.0002][.0000.0026.0002][.0000.0024.0002]
@@ -133,13 +121,13 @@ def keyfn(myducetDict, level=4):
         def __init__(self, obj, *a):
             self.obj = obj
         def __lt__(self, other):
-            return 0 > ducetCompare(self.ducetDict, self.obj, other.obj) >= -level
-        def __gt__(self, other):
             return 0 < ducetCompare(self.ducetDict, self.obj, other.obj) <= level
+        def __gt__(self, other):
+            return 0 > ducetCompare(self.ducetDict, self.obj, other.obj) >= -level
         def __le__(self, other):
-            return ducetCompare(self.ducetDict, self.obj, other.obj) <= 0
+            return not self > other
         def __ge__(self, other):
-            return ducetCompare(self.ducetDict, self.obj, other.obj) >= 0
+            return not self < other
         def __str__(self):
             return " ".join(_generateSortKey(self.ducetDict[self.obj]))
     return K
-- 
2.43.0


From a3bb3e057180e23cf23593031782dde078fcbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:34 +0000
Subject: [PATCH 021/119] fix: copy elements with copy.copy()

Elements have no copy() method any more, so that merging in a new element,
adding an alternate or resolving an alias crashed.
---
 lib/sldr/ldml.py       | 4 ++--
 lib/sldr/ldml_merge.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 86d12a7..d05f86a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,7 +26,7 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs
+import re, os, codecs, copy
 import xml.parsers.expat
 import functools
 from math import log10
@@ -479,7 +479,7 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
-        res = n.copy()
+        res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 18b26a4..fa719f5 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from sldr.ldml import Ldml, _alldrafts
-import os
+import copy, os
 
 class _arrayDict(dict):
     def set(self, k, v):
@@ -272,7 +272,7 @@ class LdmlMerge(Ldml):
 
     
     def _add_alt(self, target, origin, default='unconfirmed'):
-        self._add_alt_leaf(target, origin.copy(),
+        self._add_alt_leaf(target, copy.copy(origin),
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
-- 
2.43.0


From 3cf6eccfa08c77b427c347f322f420ffcaa901b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:34 +0000
Subject: [PATCH 022/119] fix: take the default draft of a merge from the
 document

The base of a merge is an element by then, which has no default draft.
---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index fa719f5..6ecb415 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -191,7 +191,7 @@ class LdmlMerge(Ldml):
            Returns True if the merge did the work."""
         res = False
         if default is None:
-            default = base.default_draft
+            default = self.default_draft
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-- 
2.43.0


From 7e43a241be7bb1de9346333e4bd4858f4e542c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 023/119] fix: write all characters of texts and attributes so
 that they are read back

Line ends and tabs in attributes, carriage returns, and the end of a CDATA section were written as they are.
---
 lib/sldr/ldml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d05f86a..e7aa01d 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -52,8 +52,11 @@ def getldml(loc, indirs):
 _elementprotect = {
     '&': '&amp;',
     '<': '&lt;',
-    '>': '&gt;' }
+    '>': '&gt;',
+    '\r': '&#13;' }
 _attribprotect = dict(_elementprotect)
+_attribprotect['\n'] = '&#10;'
+_attribprotect['\t'] = '&#9;'
 _attribprotect['"'] = '&quot;'
 _attribprotect["'"] = '&apos;'
 
@@ -176,7 +179,8 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = "<![CDATA[\n\t" + indent + base.text.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
+                t = base.text.replace(']]>', ']]]]><![CDATA[>').replace('\r', ']]>&#13;<![CDATA[')
+                t = "<![CDATA[\n\t" + indent + t.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
             write('/>\n')
-- 
2.43.0


From 5abfc6f19d4c6aacd37b54741ff9578002df844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 024/119] fix: declare namespaces in every document that is
 written

The default dictionary of declared namespaces was shared by all calls, so that only the first document written
with namespaces declared low down had its declarations.
---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e7aa01d..0806ff0 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -140,6 +140,7 @@ class ETWriter(object):
             topns if set puts all namespaces in root element else put them as low as possible"""
         if base is None:
             base = self.root
+            namespaces = dict(namespaces)   # not what an earlier document has declared
             write('<?xml version="1.0" encoding="utf-8"?>\n')
             namespaces['http://www.w3.org/XML/1998/namespace'] = 'xml'
         (tag, q, ns) = self._localisens(base.tag)
-- 
2.43.0


From b29284548b5a6cb43d7f9300e1100ce26083afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:36 +0000
Subject: [PATCH 025/119] fix: write comments that are read back

A comment on a clash holds text of the documents, and -- cannot be in a comment.
---
 lib/sldr/ldml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 0806ff0..1d87e32 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -118,6 +118,10 @@ class ETWriter(object):
         ''' Turn key characters into entities'''
         return re.sub('['+"".join(base.keys())+"]", lambda m: base[m.group(0)], txt)
 
+    def _protectcomment(self, txt):
+        ''' There can be no -- in a comment, nor a - at its end'''
+        return re.sub(r'-(?=-|\Z)', '- ', txt)
+
     def _nsprotectattribs(self, attribs, localattribs, namespaces):
         ''' Prepare attributes for output by protecting, converting ns: form
             and collecting any xmlns attributes needing to be added'''
@@ -162,7 +166,7 @@ class ETWriter(object):
                     localattribs['xmlns:'+lq] = lns
         self._nsprotectattribs(getattr(base, 'attrib', None), localattribs, namespaces)
         for c in getattr(base, 'comments', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
         write('{}<{}'.format(indent, tag))
         if len(localattribs):
             def getorder(x):
@@ -186,7 +190,7 @@ class ETWriter(object):
         else:
             write('/>\n')
         for c in getattr(base, 'commentsafter', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
 
     def save_as(self, fname, base = None, indent = '', topns = True, namespaces = {}):
         """ A more comfortable serialize_xml using a filename"""
-- 
2.43.0


From 764da9fc28f53633abdfa357fea21e414e001b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:55 +0000
Subject: [PATCH 026/119] fix: only the white space of XML is trimmed from
 texts

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 1d87e32..cabe923 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -783,7 +783,7 @@ class Ldml(ETWriter):
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-            t = base.text.strip()
+            t = base.text.strip(' \t\r\n')        # other spaces are content
             base.text = re.sub(r'[ \t]*\n[ \t]*', '\n', t)       # content hash has text in lines
         base.tail = None
         if usedrafts or addguids:
-- 
2.43.0


From f587f9620d74acb2372541553a18b26393939035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 027/119] fix: normalising again keeps the alternates

---
 lib/sldr/ldml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index cabe923..ff52343 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -800,7 +800,10 @@ class Ldml(ETWriter):
                     resk = None
                 else:
                     resk = min(v.keys(), key=lambda x: self.get_draft(v[x], self.default_draft))
-                newalts = {nk: nv for nk, nv in v.items() if nk is not resk}
+                newalts = {}        # may have been packed before
+                for n in v.values():
+                    newalts.update(getattr(n, 'alternates', {}))
+                newalts.update((nk, nv) for nk, nv in v.items() if nk is not resk)
                 for nk in list(v.keys()):
                     if nk is not resk:
                         del v[nk]
-- 
2.43.0


From 967919bdad0623a8a43913326622e0cb41da0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 028/119] fix: values in a path may hold slashes and brackets

---
 lib/sldr/ldml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index ff52343..5aba84f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -682,9 +682,10 @@ class Ldml(ETWriter):
         if path.startswith("/"):
             raise SyntaxError
         steps = []
-        for s in path.split("/"):
-            parts = re.split(r"\[(.*?)\]", s)
-            tag = parts.pop(0)
+        pred = r'\[((?:[^]"\']|"[^"]*"|\'[^\']*\')*)\]'          # quoted values may hold any character
+        for s in re.finditer(r'((?:[^/\[{]|{[^}]*})+)((?:' + pred + r')*)', path):
+            parts = [m.group(1) for m in re.finditer(pred, s.group(2))]
+            tag = s.group(1)
             tag = self._reverselocalns(tag)
             if not len(parts):
                 steps.append(tag)
-- 
2.43.0


From 26e8d45907a53e14cd8d0f35ef6e9a9182b5939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 029/119] fix: subelement passes the attributes on

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5aba84f..82a1439 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -224,7 +224,7 @@ class ETWriter(object):
         """ Create a new SubElement and do localns replacement as in ns:tag -> {url}tag"""
         tag = self._reverselocalns(tag)
         kw = {self._reverselocalns(k): v for k, v in kw.items() if v is not None}
-        return et.SubElement(parent, tag, **k)
+        return et.SubElement(parent, tag, kw)
 
 
 def etwrite(et, write, topns = True, namespaces = None):
-- 
2.43.0


From 46e1ff4bb98bf8ce19c1f56554290cd5ce3df9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:45 +0000
Subject: [PATCH 030/119] fix: a path with a place or text gives them to the
 element at its end

---
 lib/sldr/ldml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 82a1439..7cf5619 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -671,7 +671,10 @@ class Ldml(ETWriter):
                             newcurr.append(r)
             if not len(newcurr):
                 if action == "add":
-                    newcurr.append(self._add_inserted_node(before, draft, text, parent, tag, attrib=attrs, alt=alt))
+                    if i == len(path)-1:
+                        newcurr.append(self._add_inserted_node(before, draft, text, parent, tag, attrib=attrs, alt=alt))
+                    else:
+                        newcurr.append(self._add_inserted_node(None, draft, None, parent, tag, attrib=attrs, alt=alt))
                 else:
                     return []
             parent = newcurr[0]
@@ -705,7 +708,7 @@ class Ldml(ETWriter):
             Returns a list of nodes found, or created, even if only 1.
             If text is given, only return matching nodes, creating if necessary. If the draft of a matching
             string is worse then improve it."""
-        (newcurr, steps) = self._process_path(path, action=("find" if dontadd else "add"), text=text, draft=draft, alt=alt, **kw)
+        (newcurr, steps) = self._process_path(path, action=("find" if dontadd else "add"), text=text, draft=draft, alt=alt, before=before, **kw)
         if text is not None and not dontadd:
             curr = newcurr
             newcurr = []
-- 
2.43.0


From c8ec6dc017c9e1856128df5d4f682a5d116afb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:17 +0000
Subject: [PATCH 031/119] fix: a path with text and draft looks at the
 alternates too

---
 lib/sldr/ldml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 7cf5619..739961f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -713,11 +713,13 @@ class Ldml(ETWriter):
             curr = newcurr
             newcurr = []
             for job in curr:
-                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.keys()
-                for j in itertools.chain([job], extras):
+                extras = [] if draft is None or not hasattr(job, 'alternates') else list(job.alternates.items())
+                for k, j in itertools.chain([(None, job)], extras):
                     if j.text == text:
                         if draft is not None and self.get_draft(j) > draftratings.get(draft, len(draftratings)):
                             self.change_draft(j, draft, alt=alt)
+                            if k is not None and self.get_draft(j) < self.get_draft(job):
+                                self._promote(job, j, alt=k)
                         newcurr.append(j)
             if not len(newcurr):
                 tag = steps[-1]
-- 
2.43.0


From aa59c081c7fbb4e960b178641fd30ffa9ddd2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 032/119] fix: an alternate that was written stays when it
 becomes the primary

---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 739961f..6e19dcc 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -909,6 +909,7 @@ class Ldml(ETWriter):
             for c in list(n):
                 if hasattr(c, 'tempnode') and c.tempnode:
                     n.remove(c)
+                    c.tempnode = False
 
     def get_draft(self, e, default=None):
         """ Return a draft numeric level for this node """
-- 
2.43.0


From 691b37feb14ec560bac7291887f750113196a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 033/119] fix: an alternate without a draft has the default
 draft when looking for the best

---
 lib/sldr/ldml.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6e19dcc..2334b4c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -552,21 +552,20 @@ class Ldml(ETWriter):
     def _find_best(self, node, threshold=len(draftratings), alt=None):
         ''' Find the best alternate in node. The alt parameter chooses that alt
             if it is a possible winner'''
-        maxr = len(draftratings)
         if not hasattr(node, 'alternates'):
             return None
         res = None
         if alt is not None:
             bestalt = node.alternates.get(alt, None)
             if bestalt is not None:
-                bestalt = draftratings.get(bestalt.get('draft', None), maxr)
+                bestalt = self.get_draft(bestalt, self.use_draft)
             else:
                 bestalt = None
         else:
             bestalt = None
 
         for k, v in node.alternates.items():
-            d = draftratings.get(v.get('draft', self.use_draft), maxr)
+            d = self.get_draft(v, self.use_draft)
             if d < threshold:
                 res = k
                 threshold = d
-- 
2.43.0


From a6fcc8af7b20bf1f10f8622fc9025ffae7dcd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 034/119] fix: merging takes what both sides added to an
 element that the base does not have

---
 lib/sldr/ldml_merge.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 6ecb415..3973163 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -287,8 +287,11 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
-                    self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
+                    if len(t) and len(t.mergeOther):        # both added it, take what is in either
+                        res |= self.merge(t.mergeOther, None, t, default=default, copycomments=copycomments)
+                    elif self.useDrafts:
+                        self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
@@ -327,11 +330,11 @@ class LdmlMerge(Ldml):
         oattrs = set(other.keys() if other is not None else [])
         for k in list(this.keys()):                                  # go through our attributes
             if k in oattrs:
-                if k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
+                if base is not None and k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
                 elif this.get(k) != other.get(k):
-                    self.clash_attrib(k, this.get(k), other.get(k), base.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
+                    self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
             elif base is not None and k in base.attrib:                        # o deleted it
-- 
2.43.0


From a451dd19219bd415a5ebb9cc494d7af40e004b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 035/119] fix: a change of one side only, or alike on both, is
 no clash

---
 lib/sldr/ldml_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 3973163..72dbae6 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -319,7 +319,7 @@ class LdmlMerge(Ldml):
                 this.text = None
                 this.contentHash = None
             if self.useDrafts: res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-        elif base is not None and other is not None and other.text != base.text:
+        elif base is not None and other is not None and other.text != base.text and other.text != this.text:
             self.clash_text(this.text, other.text, (base.text if base is not None else None),
                                         this, other, base, usedrafts=self.useDrafts)
             if self.useDrafts:
@@ -333,7 +333,7 @@ class LdmlMerge(Ldml):
                 if base is not None and k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
-                elif this.get(k) != other.get(k):
+                elif this.get(k) != other.get(k) and (base is None or base.get(k) != other.get(k)):
                     self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
-- 
2.43.0


From f17110a4e4358d5cc74b6f543cd09ca0bea84f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 036/119] fix: overlaying external resources where there are
 none

---
 lib/sldr/ldml_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 72dbae6..0f5267a 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -100,7 +100,11 @@ class LdmlMerge(Ldml):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
         fonts = []
-        this = [x for x in this if x.attrHash == other.attrHash][0]
+        here = [x for x in this if x.attrHash == other.attrHash]
+        if not len(here):
+            this.append(other)
+            return
+        this = here[0]
         for t in list(this):
             if t.tag == silfonttag:
                 fonts.append(t)
-- 
2.43.0


From e45c076e62ac78a1e99d1d17b4457836bafdbee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 037/119] fix: the difference keeps alternates that only one
 document has

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 0f5267a..0e15259 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -59,7 +59,7 @@ class LdmlMerge(Ldml):
             return (other.contentHash == this.contentHash)
         for o in other:
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
-                if o.contentHash == t.contentHash or self.difference(o, this=t):
+                if self.difference(o, this=t):      # hashes do not tell about alternates further down
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
                         for (k, v) in o.alternates.items():
                             if k in t.alternates and v.contentHash == t.alternates[k].contentHash:
-- 
2.43.0


From 6ce3aeaf5324127644db520fdf6b1258c323f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 038/119] fix: a copied element keeps its alternates

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 2334b4c..117c887 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -492,6 +492,8 @@ class Ldml(ETWriter):
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
+        if hasattr(n, 'alternates'):
+            res.alternates = dict(n.alternates)
         if parent is not None:
             res.parent = parent
         return res
-- 
2.43.0


From e04bfe4a19fb47541d73631f7e40c6aeca77a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:49 +0000
Subject: [PATCH 039/119] fix: elements taken over from another document belong
 to their new parent

---
 lib/sldr/ldml_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 0e15259..4ef0784 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -95,6 +95,7 @@ class LdmlMerge(Ldml):
             break  # only do one alignment
         if addme and (o.tag != "alias" or not len(this)):  # alias in effect turns it into blocking
             this.append(o)
+            o.parent = this
 
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
@@ -103,6 +104,7 @@ class LdmlMerge(Ldml):
         here = [x for x in this if x.attrHash == other.attrHash]
         if not len(here):
             this.append(other)
+            other.parent = this
             return
         this = here[0]
         for t in list(this):
@@ -303,6 +305,7 @@ class LdmlMerge(Ldml):
                             not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
                         this.remove(t)                                  # swap us out
                         this.append(t.mergeOther)
+                        t.mergeOther.parent = this
                         res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
-- 
2.43.0


From ae6cd483bb133ee8640757beb1bd71acc8cf7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 040/119] fix: take the parent locales from the fallback
 element, and leave the table alone

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 117c887..e9426c4 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -760,9 +760,9 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.split()
+            return fall.text.split()
         elif thislangtag in self.parentLocales:
-            return self.parentLocales[thislangtag]
+            return list(self.parentLocales[thislangtag])
         else:
             return []
 
-- 
2.43.0


From 4e85c71f619f8e138e6c85adb180bf594b87caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 041/119] fix: report a loop of aliases

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e9426c4..63423d2 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -936,7 +936,7 @@ class Ldml(ETWriter):
                 children = this.findall(v)
                 if children is None or not len(children): continue
                 if children[0] in _cache:
-                    print("Alias loop discovered {} in {}".format(children[0], self.name))
+                    print("Alias loop discovered {} in {}".format(children[0], getattr(self, 'fname', None)))
                     return True
                 _cache.add(children[0])
                 self.resolve_aliases(children[0], _cache)
-- 
2.43.0


From 30df0ccc59530e0b38115596920d653117521109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 042/119] fix: a change of any locale in the chain of fallbacks
 counts

---
 lib/sldr/ldml_merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 4ef0784..2cbaf83 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -439,9 +439,11 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         if len(changed):       # check against changed
             dome = False
             for f in fallbacks:
-                if f in changed:
-                    dome = True
-                    break
+                while len(f):
+                    if f in changed:
+                        dome = True
+                        break
+                    f = trimtag(f)
             if not dome: return None
         dome = True
         for f in fallbacks:    # apply each fallback
-- 
2.43.0


From 5bbcb32bc2e586ddb58004f320e2a44f03c47652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 043/119] fix: compare with the draft of the alternate when
 merging

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 2cbaf83..511d176 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -252,7 +252,7 @@ class LdmlMerge(Ldml):
         for k in allkeys:
             if k not in balt:
                 if k not in other.alternates: continue
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
+                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
                     target.alternates[k] = other.alternates[k]
                     res = True
             elif k not in other.alternates:
-- 
2.43.0


From 92db8e71648907a6694c31ff8d0393838a9b798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:39 +0000
Subject: [PATCH 044/119] fix: merge the alternates of an element that both
 sides added

---
 lib/sldr/ldml_merge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 511d176..e6cc329 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -293,11 +293,12 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
-                    if len(t) and len(t.mergeOther):        # both added it, take what is in either
+                if t.mergeOther is not None:
+                    if len(t) and len(t.mergeOther) and t.mergeOther.contentHash != t.contentHash:
+                        # both added it, take what is in either
                         res |= self.merge(t.mergeOther, None, t, default=default, copycomments=copycomments)
-                    elif self.useDrafts:
-                        self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                    elif self.useDrafts:        # the same content may have other alternates
+                        res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
-- 
2.43.0


From 528b8a963bc0c684ffb32bf19de3aed0b5c12886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 045/119] fix: a script after an extended language, and a
 variant of a year, were not recognised in a language tag

---
 lib/sldr/langtags_full.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 5d01620..0672fa1 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -133,28 +133,30 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
-        if len(bits[curr]) == 4 :
+        if len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
+            self.lang += "-" + bits[curr].lower()
+            curr += 1
+            if curr >= len(bits) : return
+        if len(bits[curr]) == 4 and bits[curr][0] not in "0123456789":
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
-        elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
-            self.lang += "-" + bits[curr]
-            curr += 1
         if curr >= len(bits) : return
         if 1 < len(bits[curr]) < 4 :
             self.region = bits[curr].upper()
             curr += 1
             self.hideboth = False
         if curr >= len(bits): return
-        if len(bits[curr]) == 4 and self.script is None:
+        if len(bits[curr]) == 4 and self.script is None and self.region is not None \
+                and bits[curr][0] not in "0123456789":
             self.lang += "-"+self.region
-            self.script = bits[curr]
+            self.script = bits[curr].title()
             self.region = None
             curr += 1
             self.hideboth = False
             if curr >= len(bits): return
             if 1 < len(bits[curr]) < 4:
-                self.region = bits[curr]
+                self.region = bits[curr].upper()
                 curr += 1
         ns = ''
         extensions = {}
-- 
2.43.0


From bb217d4ea12b47c5409a27348969d8576320c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:30 +0000
Subject: [PATCH 046/119] fix: the subtags of an extension or of private use
 were reordered

---
 lib/sldr/langtags_full.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 0672fa1..858d85f 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -77,9 +77,9 @@ class LangTag(object) :
     def _extensions(self) :
         if self.extensions is None : return []
         res = []
-        for ns in sorted(self.extensions.keys()) :
+        for ns in sorted(self.extensions.keys(), key=lambda k: (k == 'x', k)) :
             res.append(ns)
-            res.extend(sorted(self.extensions[ns]))
+            res.extend(self.extensions[ns])
         return res
 
     def __str__(self) :
@@ -162,7 +162,7 @@ class LangTag(object) :
         extensions = {}
         variants = []
         while curr < len(bits) :
-            if len(bits[curr]) == 1 :
+            if len(bits[curr]) == 1 and ns != 'x' :
                 ns = bits[curr].lower()
                 extensions[ns] = []
             elif ns == '' :
-- 
2.43.0


From 0d003b24aaa7ee916177fb51c288ae5a8d57dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:45 +0000
Subject: [PATCH 047/119] fix: the forms of a language tag had its variants and
 extensions in another order

---
 lib/sldr/langtags_full.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 858d85f..2ed3834 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -223,27 +223,27 @@ class LangTag(object) :
         #    srs = [x for x in srs if x[0] == None and x[1] == self.region]
         extravars = []
         if self.variants is not None :
-            varset = set(self.variants)
             if self.hidevariants is None:
                 removes = [set()]
             else:
                 removes = powerset(self.hidevariants)
             for r in removes:
-                extravars.append("-".join(sorted(varset - r)))
+                extravars.append("-".join(v for v in self.variants if v not in r))
         else:
             extravars = [None]
         extraexts = []
         if self.extensions is not None :
-            extset = set((k, x) for k, v in self.extensions.items() for x in v)
             if self.hideextensions is None:
                 removes = [set()]
             else:
                 removes = powerset([(k, x) for k, v in self.hideextensions.items() for x in v])
             for r in removes:
                 short = {}
-                for k, v in (extset - r):
-                    short.setdefault(k, []).append(v)
-                extraexts.append("-".join(["-".join([k] + sorted(v)) for k, v in sorted(short.items())]))
+                for k, v in self.extensions.items():
+                    kept = [x for x in v if (k, x) not in r]
+                    if len(kept):
+                        short[k] = kept
+                extraexts.append("-".join(["-".join([k] + v) for k, v in sorted(short.items(), key=lambda e: (e[0] == 'x', e[0]))]))
         else:
             extraexts = [None]
         res = []
-- 
2.43.0


From 02771a639ce0a5b9137675f0978105df2c7fe6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 048/119] fix: an empty line in langtags.txt, or a first
 variant without a prefix, crashed

---
 lib/sldr/langtags_full.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 2ed3834..0b1b56d 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -328,6 +328,8 @@ class LangTags(with_metaclass(Singleton, dict)):
             try:
                 with open(p, encoding="utf-8") as fh:
                     for l in fh.readlines():
+                        if not len(l.strip()):
+                            continue
                         tags = [x[1:] if x.startswith("*") else x for x in l.strip().split() if x != "="]
                         temp = {}
                         t = tags.pop()
@@ -380,6 +382,7 @@ class LangTags(with_metaclass(Singleton, dict)):
         with open(fname, encoding="utf-8") as f :
             currlang = None
             mode = None
+            hasprefix = False
             deprecated = False
             for l in f.readlines() :
                 l = l.strip()
-- 
2.43.0


From 4f219270ef44758ed5cf2aee052a309638d09541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 049/119] fix: continued lines and whole tags were put into
 other fields and records of the registry

---
 lib/sldr/iana.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/iana.py b/lib/sldr/iana.py
index bc9f9ed..3513906 100644
--- a/lib/sldr/iana.py
+++ b/lib/sldr/iana.py
@@ -36,7 +36,11 @@ class Iana(object):
         with open(path, "r", encoding='utf-8') as fh:
             for l in fh.readlines():
                 if l.startswith(" "):
-                    currtag[currfield] += " " + l.strip()
+                    if isinstance(currtag[currfield], list):
+                        currtag[currfield][-1] += " " + l.strip()
+                    else:
+                        currtag[currfield] += " " + l.strip()
+                    continue
                 try:
                     f, v = l.strip().split(":", 1)
                 except ValueError:
@@ -45,7 +49,7 @@ class Iana(object):
                 f = f.lower()
                 if f == "type":
                     currtype = v
-                elif f == "subtag":
+                elif f in ("subtag", "tag"):
                     currtag = {}
                     if not hasattr(self, currtype):
                         setattr(self, currtype, {})
-- 
2.43.0


From 6673334a810c4c3db180fc958eb2d0ddb657c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 050/119] fix: reversing a sequence of sets crashed

---
 lib/sldr/UnicodeSets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 1dda2f9..e290ba0 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -123,13 +123,13 @@ def escapechar(s):
 class UnicodeSetSequence(list):
 
     def __init__(self, *p, **kw):
-        super(list, self).__init__(*p, **kw)
+        super(UnicodeSetSequence, self).__init__(*p, **kw)
         self.groups = []
 
     def reverse(self):
-        new = UnicodeSetSequence(self)
+        new = UnicodeSetSequence(self[::-1])
         l = len(self)
-        new.groups = [(l-x[0], l-x[1]) for x in self.groups]
+        new.groups = [(l-x[1], l-x[0]) for x in self.groups]
         return new
 
 
-- 
2.43.0


From 8f2c758d6b60976bb86fba7de470239cfbad7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 051/119] fix: optional and alternative modifiers of a keyboard
 crashed or were required together

---
 lib/sldr/ldml_keyboard.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index a5ba4f9..a48b06a 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -97,18 +97,17 @@ class Keyboard(object):
 
     def parse_modifiers(self, modifiers):
         '''Flatten a modifier list into a list of possible modifiers'''
-        resn = []
-        reso = []
-        for m in modifiers.lower().split():
-            for mod in m.lower().split('+'):
+        for m in modifiers.lower().split() or [""]:
+            resn = []
+            reso = []
+            for mod in m.split('+'):
                 if mod.endswith("?"):
-                    reso.append(mod)
-                else:
+                    reso.append(mod[:-1])
+                elif len(mod):
                     resn.append(mod)
-        yield sorted(resn)
-        for i in range(len(reso)):
-            for c in itertools.combinations(reso, i):
-                yield sorted(resn + c)
+            for i in range(len(reso) + 1):
+                for c in itertools.combinations(reso, i):
+                    yield sorted(resn + list(c))
 
     def initstring(self):
         '''Prepare to start processing a sequence of keystrokes'''
@@ -146,7 +145,7 @@ class Keyboard(object):
 
     def map_key(self, k, mods):
         '''Apply the appropriate keyMap to a keystroke to get some chars'''
-        modstr = " ".join(sorted(mods))
+        modstr = " ".join(sorted(x.lower() for x in mods))
         try:
             res = self.keyboards[self.modifiers[modstr]][k]
         except KeyError:
-- 
2.43.0


From 4d57f33c8bccf878942def1733027b5cbb52388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 052/119] fix: the transforms of a keyboard crashed

---
 lib/sldr/ldml_keyboard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index a48b06a..cc17643 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -330,7 +330,7 @@ class Rules(object):
                         j.default = Rule()
                     newjobs.add(j.default)
                 if isFinal:
-                    for j, string in newjobs:
+                    for j in newjobs:
                         j.merge(transform.attrib)
             jobs = newjobs
 
@@ -378,8 +378,8 @@ class Rule(dict):
 
     def merge(self, e):
         if 'before' in e or 'after' in e:
-            before = UnicodeSets.flatten(e.get('before', ""))
-            after = UnicodeSets.flatten(e.get('after', ""))
+            before = list(UnicodeSets.flatten(e.get('before', "")))
+            after = list(UnicodeSets.flatten(e.get('after', "")))
             for b in before or [""]:
                 for a in after or [""]:
                     k = (b, a)
-- 
2.43.0


From d3bd04e9e0da1f29474af19b84f1ecee5573a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:34 +0000
Subject: [PATCH 053/119] fix: negated sets and contexts of keyboard transforms
 were not matched

---
 lib/sldr/ldml_keyboard.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index cc17643..0eea27c 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from xml.etree import ElementTree as et
-import itertools, re, os, sys
+import copy, itertools, re, os, sys
 from collections import namedtuple
 
 try:
@@ -177,7 +177,7 @@ class Keyboard(object):
         curr = context.offset(ruleset)
         instr = context.input(ruleset)
         while curr < len(instr):
-            r = trans.match(instr[curr:], partial=partial, fail=fail)
+            r = trans.match(instr, curr, partial=partial, fail=fail)
             if r[0] is not None:
                 if getattr(r[0], 'error', 0): return False
                 context.results(ruleset, r[1], getattr(r[0], 'to', ""))
@@ -208,7 +208,7 @@ class Keyboard(object):
 
     def _get_charcodes(self, instr, curr, trans):
         '''Returns a list of some CharCodes, 1 per char, for the string at curr''' 
-        r = trans.match(instr[curr:])
+        r = trans.match(instr, curr)
         if r[0] is not None:
             orders = [int(x) for x in self._padlist(getattr(r[0], 'order', "0"), r[1])]
             bases = [bool(x) for x in self._padlist(getattr(r[0], 'tertiary_base', "false"), r[1])]
@@ -319,7 +319,8 @@ class Rules(object):
                 j.fail = False
                 for l in k:
                     if l not in j:
-                        j[l] = Rule()
+                        # so far l was any other character
+                        j[l] = Rule() if j.default is None else copy.deepcopy(j.default)
                     if not k.negative:
                         newjobs.add(j[l])
                 if k.negative:
@@ -346,19 +347,19 @@ class Rules(object):
         if fail and s[ind] in curr:
             lastind = start + 1
         while ind < len(s):
-            if s[ind] not in curr:
-                if curr.default:
-                    curr = curr.default
-                else:
-                    return (last, lastind - start)
-            curr = curr[s[ind]]
+            if s[ind] in curr:
+                curr = curr[s[ind]]
+            elif curr.default is not None:
+                curr = curr.default
+            else:
+                return (last, lastind - start)
             ind += 1
-            if curr.rule:
+            if curr.rule or len(curr.contexts):
                 newlast = curr.context_match(s, start, ind)
                 if newlast is not None:
                     lastind = ind
                     last = newlast
-        if partial and len(curr):
+        if partial and (len(curr) or curr.default is not None):
             return (None, ind - start)
         else:
             return (last, lastind - start)
@@ -411,7 +412,7 @@ class Rule(dict):
         for m, r in self.contexts.items():
             if self._matchcontext(m, s, beg, end):
                 return r
-        return None
+        return self if self.rule else None
 
 class Context(object):
     '''Holds the processed state of each layer after a keystroke'''
-- 
2.43.0


From 1a30e5191dc22eaad0f314e82cb090dc6b2ab822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:34 +0000
Subject: [PATCH 054/119] fix: a run without a base crashed, and one with two
 bases was reordered as a whole

---
 lib/sldr/ldml_keyboard.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 0eea27c..e7a8611 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -195,7 +195,7 @@ class Keyboard(object):
         # if there is no base, insert one
         if (0, 0) not in [(x.primary, x.tertiary) for x in k]:
             s += u"\u25CC"
-            k += SortKey(0, 0, 0, 0)  # push this to the front
+            k += [SortKey(0, 0, 0, 0)]  # push this to the front
         # sort key is (primary, secondary, string index)
         return u"".join(s[y] for y in sorted(range(len(s)), key=lambda x:k[x]))
 
@@ -258,11 +258,6 @@ class Keyboard(object):
                         currprimary = c.primary
                         currbaseindex = curr + i
 
-                if ((key.primary != 0 or key.tertiary != 0) and not c.prebase) \
-                        or (c.prebase and curr + i > startrun \
-                            and keys[curr+i-startrun-1].primary == 0):  # prebase can't have tertiary
-                    isinit = False      # After the prefix, so any following prefix char starts a new run
-
                 # identify a run boundary
                 if not isinit and ((key.primary == 0 and key.tertiary == 0) or c.prebase):
                     # output sorted run and reset for new run
@@ -272,6 +267,8 @@ class Keyboard(object):
                     keys = [None] * (len(instr) - startrun)
                     isinit = True
                 keys[curr+i-startrun] = key
+                if not c.prebase:
+                    isinit = False      # After the prefix, so any following prefix char or base starts a new run
             curr += len(codes)
         if curr > startrun:
             # output but don't store any residue. Reprocess it next time.
-- 
2.43.0


From c46d90b197259a8db6e10b26bb90bc6e6acbfe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:34 +0000
Subject: [PATCH 055/119] fix: keystrokes gave something else than their text
 when a transform could still change it

---
 lib/sldr/ldml_keyboard.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index e7a8611..8e5bc06 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -156,7 +156,7 @@ class Keyboard(object):
         '''Copy layer input to output'''
         context.reset_output(ruleset)
         output = context.input(ruleset)[context.offset(ruleset):]
-        context.results(ruleset, len(output), output)
+        context.results(ruleset, context.offset(ruleset), len(output), output, None)
 
     def _process_simple(self, context, ruleset='simple', handleSettings=True):
         '''Handle a simple replacement transforms type'''
@@ -180,10 +180,10 @@ class Keyboard(object):
             r = trans.match(instr, curr, partial=partial, fail=fail)
             if r[0] is not None:
                 if getattr(r[0], 'error', 0): return False
-                context.results(ruleset, r[1], getattr(r[0], 'to', ""))
+                context.results(ruleset, curr, r[1], getattr(r[0], 'to', ""), curr + trans.lookahead)
                 curr += r[1]
             elif r[1] == 0 and not fallback:     # abject failure
-                context.results(ruleset, 1, instr[curr:curr+1])
+                context.results(ruleset, curr, 1, instr[curr:curr+1], curr + trans.lookahead)
                 curr += 1
             else:               # partial match waiting for more input
                 break
@@ -240,7 +240,8 @@ class Keyboard(object):
                 continue        # if didn't break inner loop, don't break outer loop
             break               # if we broke in the inner loop, break the outer loop
         if curr > startrun:     # just copy the odd characters across
-            context.results(ruleset, curr - startrun, instr[startrun:curr])
+            context.results(ruleset, startrun, curr - startrun, instr[startrun:curr],
+                            curr + trans.lookahead)
 
         startrun = curr
         keys = [None] * (len(instr) - startrun)
@@ -261,8 +262,10 @@ class Keyboard(object):
                 # identify a run boundary
                 if not isinit and ((key.primary == 0 and key.tertiary == 0) or c.prebase):
                     # output sorted run and reset for new run
-                    context.results(ruleset, curr + i - startrun,
-                                    self._sort(startrun, curr + i, instr, keys))
+                    # a run that ends inside what a rule matches may not be stable
+                    context.results(ruleset, startrun, curr + i - startrun,
+                                    self._sort(startrun, curr + i, instr, keys),
+                                    curr + trans.lookahead if i == 0 else None)
                     startrun = curr + i
                     keys = [None] * (len(instr) - startrun)
                     isinit = True
@@ -299,6 +302,7 @@ class Rules(object):
         self.type = ruletype
         self.rules = Rule()
         self.reverse = ruletype == 'backspace'      # work backwards
+        self.lookahead = 1      # how many chars from where a match starts it may look at
 
     def append(self, transform):
         '''Insert or merge a rule into this set of rules'''
@@ -307,6 +311,8 @@ class Rules(object):
             chars = UnicodeSets.parse(f).reverse()
         else:
             chars = UnicodeSets.parse(f)
+        after = UnicodeSets.flatten(transform.get('after', ""))
+        self.lookahead = max(self.lookahead, len(chars) + max(len(a) for a in after))
         jobs = set([self.rules])
         for i, k in enumerate(chars):
             isFinal = i + 1 == len(chars)
@@ -466,15 +472,14 @@ class Context(object):
         ind = self.index(name)
         self.outputs[ind] = self.stables[ind]
 
-    def results(self, name, length, res):
+    def results(self, name, start, length, res, upto):
         '''Remove from input, in effect, and put result into stables'''
         ind = self.index(name)
-        leftlen = len(self.outputs[ind-1]) - self.offsets[ind] - length
-        prevleft = len(self.outputs[ind-2]) - self.offsets[ind-1] if ind > 1 else 0
         self.outputs[ind] += res
-        # only add to stables if everything to be consumed is already in the stables
-        # of the previous layer. Otherwise, our results can only be temporary.
-        if leftlen > prevleft:
+        # only add to stables if everything that the result depends on (the input upto
+        # there) is already in the stables of the previous layer, and all results before
+        # are in ours. Otherwise, our results can only be temporary.
+        if upto is not None and start == self.offsets[ind] and upto <= len(self.stables[ind-1]):
             self.stables[ind] += res
             self.offsets[ind] += length
 
-- 
2.43.0


From 40dd81074f2e9c89e2f1739c20fdb0162499418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:35 +0000
Subject: [PATCH 056/119] fix: a backspace crashed, and what it removed came
 back with the next key

---
 lib/sldr/ldml_keyboard.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 8e5bc06..f4438da 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -124,7 +124,7 @@ class Keyboard(object):
         if k == 'BKSP':
             # normally we would simply undo, but test the backspace transforms
             if not self._process_backspace(ctxt, 'backspace'):
-                return self.error(ctxt)
+                return self.error()
         else:
             if not self._process_simple(ctxt):
                 return self.error()
@@ -279,20 +279,19 @@ class Keyboard(object):
 
     def _process_backspace(self, context, ruleset='backspace'):
         '''Handle the backspace transforms in response to bksp key'''
-        if ruleset not in self.transforms:
-            self.chomp(context)
-        trans = self.transforms[ruleset]
         # reverse the string
         instr = context.outputs[-1][::-1]
         # find and process one rule
-        r = trans.match(instr)
+        r = (None, 0)
+        if ruleset in self.transforms:
+            r = self.transforms[ruleset].match(instr)
         if r[0] is not None:
             if getattr(r[0], 'error', 0): return False
-            instr[:r[1]] = getattr(r[0], 'to', "")
+            instr = getattr(r[0], 'to', "")[::-1] + instr[r[1]:]
         else:       # no rule, so just remove a single character
             instr = instr[1:]
         # and reverse back again
-        context.outputs[-1] = instr[::-1]
+        context.settle(instr[::-1])
         return True
 
 
@@ -467,6 +466,12 @@ class Context(object):
         '''Returns the offset into input string that isn't in stables'''
         return self.offsets[self.slotnames[name]]
 
+    def settle(self, text):
+        '''Whatever was typed before, its text is now this'''
+        self.stables = [text] * len(self.slotnames)
+        self.outputs = [text] * len(self.slotnames)
+        self.offsets = [len(text)] * len(self.slotnames)
+
     def reset_output(self, name):
         '''Prepare output based on stables ready for more output to be added'''
         ind = self.index(name)
-- 
2.43.0


From d7ee2e9e789ef803fb5a9eedd8729d6f2096cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:35 +0000
Subject: [PATCH 057/119] fix: testing a keyboard from the command line crashed

---
 lib/sldr/ldml_keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index f4438da..1b36f26 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -505,11 +505,11 @@ def main():
     if args.outfile:
         outfile = codecs.open(args.outfile, "w", encoding="utf-8")
     else:
-        outfile = codecs.EncodedFile(sys.stdout, "utf-8")
+        outfile = sys.stdout
     with open(args.testfile) as inf:
         for l in inf.readlines():
             res = list(kbd.process_string(l))
-            outfile.write(u", ".join(map(unicode, res)) + u"\n")
+            outfile.write(u", ".join(map(str, res)) + u"\n")
     outfile.close()
 
 if __name__ == '__main__':
-- 
2.43.0


From ff65b52e18ba650d603742b46bfd11c735ddf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:05 +0000
Subject: [PATCH 058/119] fix: escapes with braces were not resolved in strings

---
 lib/sldr/UnicodeSets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index e290ba0..da1a96d 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -26,7 +26,7 @@ import unicodedata
 import re
 
 # an escaped backslash is matched first (without a group), so that it never starts a hex escape
-hexescre = re.compile(r"\\\\|(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
+hexescre = re.compile(r"\\\\|(?:\\[ux]\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
 hexgre = re.compile(r"\\\\|\\u\{([0-9a-fA-F]+)\}")
 simpleescs = {
     'a' : "\u0007",
-- 
2.43.0


From 5c2473c57a7e5051ed44791de0465911540b3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 059/119] fix: an escaped digit of other scripts was taken for
 a group

---
 lib/sldr/UnicodeSets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index da1a96d..8cb60b2 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -316,10 +316,9 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
         ind = e + 1
     elif s[ind] == '\\':
         x = s[ind+1]
-        try:
-            y = int(x)
+        if x in "0123456789":
             res.add("\\"+x)
-        except:
+        else:
             res.add(simpleescs.get(x, x))
         ind += 2
     elif usegroups and s[ind] == '(':
-- 
2.43.0


From c105100ff4e5c3cd7250c135e337415cd083f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 060/119] fix: a row of a spreadsheet that ends before the
 value column crashed

---
 lib/sldr/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 0a6c100..32adf89 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -277,6 +277,7 @@ class Sheet(object):
                 elname = result.group('elname')
                 atname = result.group('atname')
                 atvalue = result.group('atvalue')
-                self.action(typecheck, datarow[2], atname != None and atvalue == None, atname)
+                value = datarow[2] if len(datarow) > 2 else ""
+                self.action(typecheck, value, atname != None and atvalue == None, atname)
                 datarow = self.nextrow(self.input)
 
-- 
2.43.0


From aa505ef349847f44dc41790dcc1abb982199190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 061/119] fix: filling in a spreadsheet crashed at a row for an
 attribute

---
 lib/sldr/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 32adf89..f9f1be9 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -177,7 +177,7 @@ class Sheet(object):
             c.addElement(P(text=value))
 
     def _action_ods(self, path, value, attronly, atname):
-        e = self.ldml.find(path)
+        e = self.ldml.find(path[:path.rindex('[')] if attronly else path)
         if e != None:
             if attronly:
                 v = e.attrib[atname] if atname in e.attrib else ""
-- 
2.43.0


From 5e0e7c9867e310c0f9cbc6530a518e616d57ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 062/119] fix: a value beyond the last cell of a row overwrote
 that cell

---
 lib/sldr/sheet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index f9f1be9..365c42e 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -153,7 +153,11 @@ class Sheet(object):
             if curcol + repcount >= targetcol: break
             curcol += repcount
         else:
-            pass ### got to end of row without finding desired column; add more cells? or report bad col?
+            # the row ends before the column
+            repcount = targetcol - curcol
+            c = TableCell()
+            c.setAttribute('numbercolumnsrepeated', str(repcount))
+            r.appendChild(c)
         ### doesn't preserve background color (see Time Zones for example)
         countbefore = targetcol - curcol - 1
         countafter = curcol + repcount - targetcol
-- 
2.43.0


From 108252b674f5c07ba93e8abd784f0cb34b0dc813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:17 +0000
Subject: [PATCH 063/119] fix: a spreadsheet cell was filled in from an element
 of another type

---
 lib/sldr/sheet.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 365c42e..481ca49 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -180,8 +180,15 @@ class Sheet(object):
         else:
             c.addElement(P(text=value))
 
+    def _find(self, path):
+        """Finds the element of a path, not one that is of some type when the path has none"""
+        for e in self.ldml.findall(path):
+            if path.endswith("]") or "type" not in e.attrib:
+                return e
+        return None
+
     def _action_ods(self, path, value, attronly, atname):
-        e = self.ldml.find(path[:path.rindex('[')] if attronly else path)
+        e = self.ldml.find(path[:path.rindex('[')]) if attronly else self._find(path)
         if e != None:
             if attronly:
                 v = e.attrib[atname] if atname in e.attrib else ""
@@ -191,7 +198,7 @@ class Sheet(object):
                 self._writeodsitem(4, v)
 
     def _action1d_ods(self, datarow, p1, p2):
-        v = self.ldml.find(p1 + datarow[0] + p2)
+        v = self._find(p1 + datarow[0] + p2)
         if v is not None:
             value = v.text
             if value != "":
@@ -199,7 +206,7 @@ class Sheet(object):
 
     def _action2d_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self.ldml.find(p1 + col + p2 + datarow[0] + p3)
+            v = self._find(p1 + col + p2 + datarow[0] + p3)
             if v is not None:
                 value = v.text
                 if value != "":
@@ -207,7 +214,7 @@ class Sheet(object):
 
     def _action2dr_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self.ldml.find(p1 + datarow[0] + p2 + col + p3)
+            v = self._find(p1 + datarow[0] + p2 + col + p3)
             if v is not None:
                 value = v.text
                 if value != "":
@@ -217,7 +224,7 @@ class Sheet(object):
         rowitem = datarow[1]
         if rowitem  == "": return
         for colnum in range(len(p1)):
-            v = self.ldml.find(p1[colnum] + rowitem + p2[colnum])
+            v = self._find(p1[colnum] + rowitem + p2[colnum])
             if v is not None:
                 value = v.text
                 if value != "":
-- 
2.43.0


From c400c4b23f5debfa435b2d379e060b7530ec2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:11 +0000
Subject: [PATCH 064/119] fix: finding parents crashed when a shorter tag was
 not known

---
 lib/sldr/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/utils.py b/lib/sldr/utils.py
index 07d3a0e..74b1919 100644
--- a/lib/sldr/utils.py
+++ b/lib/sldr/utils.py
@@ -108,7 +108,7 @@ def find_parents(langid, to_root = True, needs_sldr = False, match_script = True
 
     def mintag_file(langid, prev_tagset):
         mintags = [str(getattr(prev_tagset, "tag", None))]
-        tags = getattr(prev_tagset, "tags", None)
+        tags = getattr(prev_tagset, "tags", [])
         this_file = str(os.path.splitext(os.path.basename(langid).replace("_", "-"))[0])
         redundant = False
         if mintags[0] == this_file:
@@ -152,7 +152,7 @@ def find_parents(langid, to_root = True, needs_sldr = False, match_script = True
             root_tag_temp = root_tag_trim
             root_tagset_temp = lookup(str(root_tag_trim).replace("_", "-"), default="", matchRegions=False)
 #            print(root_tagset_temp)
-            if root_tagset_temp == root_tagset or root_tagset_temp == prev_tagset:
+            if root_tagset_temp == "" or root_tagset_temp == root_tagset or root_tagset_temp == prev_tagset:
 #                print("tagsets still match, trim again!")
                 continue
             elif match_region and match_script == False:
@@ -188,9 +188,6 @@ def find_parents(langid, to_root = True, needs_sldr = False, match_script = True
                     if to_root or (needs_sldr and (_has_sldr(root_tagset_temp) == False)):
 #                        print("scripts and regions still match, trim again!")
                         continue
-            elif root_tagset_temp == "":
-#                print("no tagset found that matches, idk how bc that's not how it works but this error is here anyway just in case")
-                continue
         else:
 #            print("no more trimming, final parent is the last one we trimmed!")
             return root_tag, redundant
-- 
2.43.0


From bdb338e8bc26b48edf9c90595094c535dc424a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:20 +0000
Subject: [PATCH 065/119] fix: attributes that the DTD marks as metadata or
 values were taken to distinguish elements

---
 lib/sldr/ldml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 63423d2..b13aa6e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -367,7 +367,10 @@ class Ldml(ETWriter):
             vals = val[1:-1].split("|")
             ndig = "{{:0{}d}}".format(int(log10(len(vals)) + 1.))
             cls.attribvals.setdefault(elname, {})[attname] = {v:ndig.format(i+1) for i,v in enumerate(vals)}
+        curEl = None
+        curAttrib = None
         def elementDecl(name, model):
+            nonlocal curEl, curAttrib
             # model[]: 0: (EMPTY=1, ANY, MIXED, NAME, CHOICE, SEQ), 
             #          1: (NONE=0, OPT, REP, PLUS), 
             #          2: name,
@@ -380,6 +383,7 @@ class Ldml(ETWriter):
             curAttrib = None
             curEl = name
         def attlistDecl(elname, attname, xmltype, default, required):
+            nonlocal curEl, curAttrib
             attname = reverse_localns(attname)
             elname = reverse_localns(elname)
             attribCount[elname] += 1
@@ -393,13 +397,14 @@ class Ldml(ETWriter):
             if m is None:
                 return
             if curAttrib is not None and (m.group(1) == "METADATA" or m.group(1) == "VALUE"):
-                cls.keyContexts[curEl].remove(curAttrib)
+                cls.keyContexts[curEl].discard(curAttrib)
                 cls.nonkeyContexts.setdefault(curEl, set()).add(curAttrib)
             elif m.group(1) == "BLOCK":
                 cls.blocks.append(curEl)
         parser = xml.parsers.expat.ParserCreate()
         parser.ElementDeclHandler = elementDecl
         parser.AttlistDeclHandler = attlistDecl
+        parser.CommentHandler = comment
         with open(fname) as f :
             ldmltext = "".join(f.readlines())
         parsetext = "<?xml version='1.0'?>\n<!DOCTYPE LDML [\n" + ldmltext + "]>\n"
-- 
2.43.0


From 94508310b7d2d252b1f983070cb31626f1029b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 066/119] fix: elements lost their namespace when it was a
 default one, or its prefix also stood for another

---
 lib/sldr/ldml.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b13aa6e..3a0a1d5 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -105,12 +105,8 @@ class ETWriter(object):
         ''' Convert {url}localname into ns:localname'''
         if tag[0] == '{':
             ns, localname = tag[1:].split('}', 1)
-            qname = self.namespaces.get(ns, '')
-            if qname:
-                return ('{}:{}'.format(qname, localname), qname, ns)
-            else:
-                self.nscount += 1
-                return (localname, 'ns' + str(self.nscount), ns)
+            qname = self.add_namespace('', ns)
+            return ('{}:{}'.format(qname, localname), qname, ns)
         else:
             return (tag, '', None)
 
@@ -198,8 +194,12 @@ class ETWriter(object):
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
 
     def add_namespace(self, q, ns):
-        """ Adds a namespace mapping"""
+        """ Adds a namespace mapping, with another prefix if there is none or it is in use"""
         if ns in self.namespaces: return self.namespaces[ns]
+        q = _basenamespaces.get(ns, q)
+        while not q or q in self.namespaces.values():
+            self.nscount += 1
+            q = 'ns' + str(self.nscount)
         self.namespaces[ns] = q
         return q
 
@@ -459,7 +459,8 @@ class Ldml(ETWriter):
         parser.parser.CommentHandler = doComment
         for event, elem in et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser):
             if event == 'start-ns':
-                self.namespaces[elem[1]] = elem[0]
+                if elem[1]:     # unless a default namespace is taken back
+                    self.add_namespace(elem[0], elem[1])
             elif event == 'start':
                 elem.document = self
                 if elem.tag == '!--':
-- 
2.43.0


From 5d0495fec40e33ce7ca0f58b003c96ce02716a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:49 +0000
Subject: [PATCH 067/119] fix: an ETWriter without namespaces crashed

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 3a0a1d5..cbce755 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -96,8 +96,8 @@ class ETWriter(object):
         self.root = et
         if namespaces is not None:
             self.namespaces = namespaces
-        if self.namespaces is None:
-            self.namespaces = {'http://www.w3.org/XML/1998/namespaces': 'xml'}
+        else:
+            self.namespaces = {'http://www.w3.org/XML/1998/namespace': 'xml'}
         self.attributeOrder = attributeOrder
         self.takesCData = takesCData
 
-- 
2.43.0


From 6b4acbc04edd7d70b98c75d509e85dc7fc172002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:02 +0000
Subject: [PATCH 068/119] fix: the minutes of southern and western coordinates
 were added on the wrong side of zero

---
 scripts/zonetab | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/zonetab b/scripts/zonetab
index 48538b5..f38471f 100755
--- a/scripts/zonetab
+++ b/scripts/zonetab
@@ -5,11 +5,11 @@
 import argparse, re
 
 def latlongdeg(sign, deg, mins, secs):
-    res = float(sign+deg)
+    res = float(deg)
     res += float(mins) / 60.
     if secs is not None:
         res += float(secs) / 3600.
-    return res
+    return -res if sign == "-" else res
 
 fixzones = {
     "America/Atikokan": "America/Coral_Harbour",
-- 
2.43.0


From 74da9004da2e0303cb2566c72d6ff67d061110cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 069/119] fix: the report of the keyboards crashed

---
 scripts/sldraddkeymans | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/sldraddkeymans b/scripts/sldraddkeymans
index 65c998a..97bf214 100755
--- a/scripts/sldraddkeymans
+++ b/scripts/sldraddkeymans
@@ -40,8 +40,8 @@ for a in alldat["keyboard"]:
                 entry[s+'source'] = k[s]['source'][0]
 if args.output:
     with open(args.output, "w") as outf:
-        fieldnames = ['langtag', 'fontfamily', 'fontsource',
-                    'oskfamily', 'osksource']
+        fieldnames = ['langtag', 'id', 'fontfamily', 'fontsource',
+                    'oskfontfamily', 'oskfontsource']
         writer = csv.DictWriter(outf, fieldnames = fieldnames)
         writer.writeheader()
         for k, v in sorted(results.items()):
-- 
2.43.0


From 6bf8bf6c0dd15e4e38f6794904189f359de3ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 070/119] fix: which of several fonts became the default font
 was left to chance

---
 scripts/sldraddfonts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/sldraddfonts b/scripts/sldraddfonts
index b8541fc..21ec573 100755
--- a/scripts/sldraddfonts
+++ b/scripts/sldraddfonts
@@ -359,7 +359,8 @@ def write_font_data(xml_locale, filepath, preferred_fonts):
         only_csv = sorted(set(preferred_fonts_from_csv) - set(preferred_fonts_from_css))
         only_css = sorted(set(preferred_fonts_from_css) - set(preferred_fonts_from_csv))
 
-        common = set(preferred_fonts_from_csv) & set(preferred_fonts_from_css)
+        # in the order of the table, since the first font is the default font
+        common = [font for font in preferred_fonts_from_csv if font in preferred_fonts_from_css]
 
         message = ''
         # fonts
-- 
2.43.0


From 14b92557eccfd7b86020f61032c62c87b5c41dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:59 +0000
Subject: [PATCH 071/119] fix: references were kept when a locale had several
 files

They were taken out of the last file that was merged, not of the result.
---
 scripts/cldrimport | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index f8a6eae..3018090 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -96,7 +96,7 @@ def doit(a) :
             curr.add_silidentity(draft = 'unconfirmed', source = 'cldrseed', **extras)
         else :
             curr.add_silidentity(source = 'cldr', **extras)
-        for b in list(l.root.iter()):
+        for b in list(curr.root.iter()):
             b.attrib.pop("references", None)        # remove all reference attributes
         if args.hg :
             dohg(curr, allfiles)
-- 
2.43.0


From e2779321ca1133ca687285b7d82c5bb3ca8b25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 072/119] fix: importing with revisions crashed

The output of a command is bytes and the elements were not those of an Ldml.
---
 scripts/cldrimport | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index 3018090..f01222d 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -110,16 +110,11 @@ def doit(a) :
 def dohg(l, files) :
     cmd = ["hg", "log", "-R", os.path.join(args.indir, '..'), "-l", "1", "--template", "{svnrev}\n{isodate(date)}"]
     cmd.extend(files)
-    clog = subprocess.check_output(cmd)
+    clog = subprocess.check_output(cmd).decode("utf-8")
     (rev, date) = clog.split("\n")
-    i = l.root.find("identity")
-    r = i.find("version")
-    if r is None :
-        r = et.SubElement(i, "version")
+    r = l.ensure_path("identity/version")[0]
     r.set('number', "$Revision: {} $".format(rev))
-    d = i.find("generation")
-    if d is None :
-        d = et.SubElement(i, "generation")
+    d = l.ensure_path("identity/generation")[0]
     d.set("date", "$Date: {} $".format(date))
 
 if not args.single :
-- 
2.43.0


From 37cab80ecf06ca14fa8c186f7bfcf2d3fc72aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:54 +0000
Subject: [PATCH 073/119] fix: fontmatch could not match any tag

It parsed the type str instead of the tag, and a tag that is not in the table raises KeyError.
---
 scripts/fontmatch | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/fontmatch b/scripts/fontmatch
index 3c91c0d..35fcae1 100755
--- a/scripts/fontmatch
+++ b/scripts/fontmatch
@@ -6,7 +6,7 @@ from langtag import lookup, langtag
 keyfields = {'scr': 'script', 'lang': 'lang', 'reg': 'region'}
 def match1(rules, ltag):
     if isinstance(ltag, str):
-        ltag = langtag(str)
+        ltag = langtag(ltag)
     for r in rules:
         for k, v in r["match"].items():
             if isinstance(v, str):
@@ -27,11 +27,10 @@ args = parser.parse_args()
 with open(args.rules, encoding="utf-8") as inf:
     rules = json.load(inf)
 
-ltagset = lookup(args.langtag)
-if ltagset is None:
+try:
+    ltag = lookup(args.langtag).full
+except KeyError:
     ltag = langtag(args.langtag)
-else:
-    ltag = ltagset.full
 
 print(f"Searching for {ltag}")
 if args.timeit:
-- 
2.43.0


From 2cfc9ed66fc529f1f4b9f081350b82c8c429149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:16 +0000
Subject: [PATCH 074/119] fix: ldmlnormalize crashed on other files and on
 directories that are not there yet

---
 scripts/ldmlnormalize | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/ldmlnormalize b/scripts/ldmlnormalize
index 6dbd0fb..5035c8d 100755
--- a/scripts/ldmlnormalize
+++ b/scripts/ldmlnormalize
@@ -21,7 +21,7 @@ else:
         if di.endswith(".xml") or di.endswith(".ldml"):
             allins.append(di)
             allouts.append(do)
-        else:
+        elif os.path.isdir(di):
             for f in os.listdir(di):
                 fi = os.path.join(di, f)
                 fo = os.path.join(do, f)
@@ -35,6 +35,8 @@ for fi, fo in zip(allins, allouts):
     except Exception as e:
         print(f"{e} in {fi}")
         continue
+    if os.path.dirname(fo) != "":
+        os.makedirs(os.path.dirname(fo), exist_ok=True)
     l.save_as(fo)
 
     if args.validate:
-- 
2.43.0


From 8cdb07e0c92be0313975a1dab8beaeb8510c4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:16 +0000
Subject: [PATCH 075/119] fix: ldmlmerge crashed without an output file, and
 with --verbose if there are only two files

---
 scripts/ldmlmerge | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 5bb397a..568f212 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -82,7 +82,7 @@ else :
 
 if args.verbose:
     print(f"{args=}")
-    print(f"{this.default_draft=} {base.default_draft=} {other.default_draft=}")
+    print(f"{this.default_draft=} {base.default_draft=} {getattr(other, 'default_draft', None)=}")
 if this.merge(other, base, default=args.default, copycomments=args.copycomments) and not args.nogeneration :
     # update the date
     idnode = this.find("./identity/generation")
@@ -93,7 +93,6 @@ if this.merge(other, base, default=args.default, copycomments=args.copycomments)
     currdate = datetime.now()
     #currdate.microsecond = 0
     #idnode.set("date","$Date: " + currdate.isoformat() + " $")
-sys.stdout = codecs.getwriter("UTF-8")(sys.stdout)
 this.normalise()
 
 if args.git :
@@ -104,7 +103,7 @@ if args.git :
     this = flattenlocale(this, rev='r', dirs=args.dirs, fname=args.this)
 
 if not args.output :
-    outfh = sys.stdout
+    outfh = codecs.getwriter("UTF-8")(sys.stdout.buffer)
 else :
     outfh = codecs.open(args.output, "w", encoding="utf-8")
 
-- 
2.43.0


From f546e77f0f9cca93d9cd3210553e7671f64b91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:16 +0000
Subject: [PATCH 076/119] fix: icupretty crashed without an output file

---
 scripts/icupretty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/icupretty b/scripts/icupretty
index 1a35dc2..faaa5de 100755
--- a/scripts/icupretty
+++ b/scripts/icupretty
@@ -56,6 +56,6 @@ output = coll.asICU(wrap=80, withkeys=args.keys, ordering=lambda x:x[1].order)
 if args.output:
     outf = codecs.open(args.output, "w", encoding="utf-8")
 else:
-    outf = codecs.getwriter('UTF-8')(sys.stdout)
+    outf = codecs.getwriter('UTF-8')(sys.stdout.buffer)
 outf.write(output)
 outf.close()
-- 
2.43.0


From 53c811f8b6c40da06bbe80d8f97ed3e256e51692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:16 +0000
Subject: [PATCH 077/119] fix: ldml_merge crashed when run as a program

---
 lib/sldr/ldml_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index e6cc329..1cb750f 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -496,6 +496,6 @@ if __name__ == '__main__':
                 o = LdmlMerge(f)
                 l.overlay(o)
     l.normalise()
-    sys.stdout = codecs.getwriter('UTF-8')(sys.stdout)
-    l.serialize_xml(sys.stdout.write) #, topns=False)
+    outfh = codecs.getwriter('UTF-8')(sys.stdout.buffer)
+    l.serialize_xml(outfh.write) #, topns=False)
 
-- 
2.43.0


From 27b7cc6fa208f3e53bef3974aae60ae0b7f40ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:16 +0000
Subject: [PATCH 078/119] fix: ldmlmerge --git crashed on the output of git,
 which is bytes

---
 scripts/ldmlmerge | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 568f212..18a6d53 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -27,7 +27,7 @@
 import os, sys, codecs
 from argparse import ArgumentParser
 from subprocess import check_output
-from io import StringIO
+from io import BytesIO
 from xml.etree import ElementTree as et
 from datetime import datetime
 from sldr.ldml_merge import LdmlMerge, flattenlocale
@@ -68,12 +68,12 @@ if args.git :
         fpath = find_ldml(args.base, args.dirs)
         if fpath is None : raise SyntaxError("Bad base value: " + args.base + ", or search dirs: " + args.dirs)
         base_str = check_output(["git", "show", revid+":"+fpath])
-        basefh = StringIO(base_str)
+        basefh = BytesIO(base_str)
         base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=args.base)
-        latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath])
+        latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath]).decode("utf-8")
         if latestid :
             other_str = check_output(["git", "show", latestid+":"+fpath])
-            otherfh = StringIO(other_str)
+            otherfh = BytesIO(other_str)
             other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=args.base)
 else :
     base = LdmlMerge(args.base)
-- 
2.43.0


From d76110a5c253c63a3546ca3dadb2cf3ff338494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 079/119] fix: ldmlmerge --git removed everything that was not
 changed when nobody else had changed the file

---
 scripts/ldmlmerge | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 18a6d53..1d1d0fb 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -71,10 +71,9 @@ if args.git :
         basefh = BytesIO(base_str)
         base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=args.base)
         latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath]).decode("utf-8")
-        if latestid :
-            other_str = check_output(["git", "show", latestid+":"+fpath])
-            otherfh = BytesIO(other_str)
-            other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=args.base)
+        other_str = check_output(["git", "show", latestid+":"+fpath]) if latestid else base_str
+        otherfh = BytesIO(other_str)
+        other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=args.base)
 else :
     base = LdmlMerge(args.base)
     if args.other :
-- 
2.43.0


From 00784eb5971d33689b77a76f462b898380be96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 080/119] fix: ldmlmerge took the path of a file for the name
 of its locale

so that its parents were not found.
---
 scripts/ldmlmerge | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 1d1d0fb..94c2bb2 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -40,6 +40,9 @@ def find_ldml(fname, dirs) :
         if os.path.exists(f) : return f
     return None
 
+def locale_name(fname) :
+    return os.path.splitext(os.path.basename(fname))[0]
+
 parser = ArgumentParser()
 parser.add_argument('this',help='File of interest')
 parser.add_argument('base',help="Common ancestor, or file to use in git")
@@ -56,7 +59,7 @@ args = parser.parse_args()
 
 this = LdmlMerge(args.this, winner=args.winner)
 if args.dirs :
-    this = flattenlocale(this, dirs=args.dirs, rev='f', fname=args.this)
+    this = flattenlocale(this, dirs=args.dirs, rev='f', fname=locale_name(args.this))
 
 other = None
 if args.git :
@@ -69,11 +72,11 @@ if args.git :
         if fpath is None : raise SyntaxError("Bad base value: " + args.base + ", or search dirs: " + args.dirs)
         base_str = check_output(["git", "show", revid+":"+fpath])
         basefh = BytesIO(base_str)
-        base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=args.base)
+        base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=locale_name(args.base))
         latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath]).decode("utf-8")
         other_str = check_output(["git", "show", latestid+":"+fpath]) if latestid else base_str
         otherfh = BytesIO(other_str)
-        other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=args.base)
+        other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=locale_name(args.base))
 else :
     base = LdmlMerge(args.base)
     if args.other :
@@ -99,7 +102,7 @@ if args.git :
     if idnode is not None :
         for k in ('uid', 'revid') :
             if k in idnode.attrib : del idnode.attrib[k]
-    this = flattenlocale(this, rev='r', dirs=args.dirs, fname=args.this)
+    this = flattenlocale(this, rev='r', dirs=args.dirs, fname=locale_name(args.this))
 
 if not args.output :
     outfh = codecs.getwriter("UTF-8")(sys.stdout.buffer)
-- 
2.43.0


From 9cca06c49d73a7cb139ece33bacd589767dfd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:40 +0000
Subject: [PATCH 081/119] fix: the coverage crashed for a region with a single
 calendar

---
 scripts/sldrcoverage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index ba3ba5a..80448ea 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -32,7 +32,7 @@ def asregex(l):
     if len(l) == 0:
         return ''
     elif len(l) == 1:
-        return l
+        return l[0]
     else:
         return "("+"|".join(l)+")"
 
-- 
2.43.0


From 22741c505e561bb6da039f0a951056a73b60c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 082/119] fix: the coverage of a document without white space
 between its elements was nothing

---
 scripts/sldrcoverage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index 80448ea..c314b34 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -23,7 +23,7 @@ def getxpaths(l, e=None):
     res = []
     for c in e:
         res.extend(getxpaths(l, c))
-    if e.text != "":
+    if e.text or not len(e):
         return [l.as_xpath(e, usedrafts=True)]
     else:
         return res
-- 
2.43.0


From 0143421ac15fffa7d6c4997c5f96eb5e01f1f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 083/119] fix: the coverage crashed when English has nothing of
 a level (as with --level)

---
 scripts/sldrcoverage | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index c314b34..4ae742a 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -178,9 +178,12 @@ outfile = open(args.outfile, "w") if args.outfile else sys.stdout
 outcsv = csv.writer(outfile)
 outcsv.writerow(['langtag', 'source'] + levelnames)
 
-for r in sorted(results, key=lambda x:(-sum(100. * x[1].get(k, 0)/reseng.get(k) for k in levelnames), x[0])):
+def percent(res, k):
+    return 100. * res.get(k, 0) / reseng[k] if reseng.get(k, 0) else 0.
+
+for r in sorted(results, key=lambda x:(-sum(percent(x[1], k) for k in levelnames), x[0])):
     if len(r[1]):
-        outcsv.writerow([r[0], r[2]] + ["{:.2f}".format(100. * r[1].get(k, 0) / reseng.get(k)) for k in levelnames])
+        outcsv.writerow([r[0], r[2]] + ["{:.2f}".format(percent(r[1], k)) for k in levelnames])
 
 if args.outfile:
     outfile.close()
-- 
2.43.0


From f9c42a8cd1fcbf36a4bdade84321fe3d345dff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:06 +0000
Subject: [PATCH 084/119] fix: the source was left out of the coverage

Ldml.find does not look for descendants.
---
 scripts/sldrcoverage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index 4ae742a..f4bdd1a 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -99,7 +99,7 @@ def locale_stats(loc, lt):
     l = getldml(loc, args.indir)
     if l is None:
         return ({}, False)
-    s = l.find('.//sil:identity')
+    s = l.find('identity/special/sil:identity')
     iscldr = s.get('source', '') if s is not None else ""
     if len(l.root) < 2:
         return ({}, iscldr)
-- 
2.43.0


From 3574cc3f0f5f29a36275b96754e900f2f9409d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:11 +0000
Subject: [PATCH 085/119] fix: a keyboard event after which nothing is there
 was reported as failed

---
 scripts/kbdtest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/kbdtest b/scripts/kbdtest
index 527dd5c..5ef32ce 100755
--- a/scripts/kbdtest
+++ b/scripts/kbdtest
@@ -86,7 +86,7 @@ for i, e in enumerate(doc.findall('.//event')):
     key = keymap[v.text.strip()]
     t = e.find('./postcontext/text')
     if t is None: continue
-    test = t.text
+    test = t.text or ""
     res = kbd.process(key, modifiers)
     if str(res) != test:
         print("Failed test {}: {} should be {}".format(i+1, res, test))
-- 
2.43.0


From a7678fea3726014f7dd0246f7daf40cffb4fcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:11 +0000
Subject: [PATCH 086/119] fix: 256 failures of a keyboard gave the exit status
 of success

---
 scripts/kbdtest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/kbdtest b/scripts/kbdtest
index 5ef32ce..227db09 100755
--- a/scripts/kbdtest
+++ b/scripts/kbdtest
@@ -94,4 +94,4 @@ for i, e in enumerate(doc.findall('.//event')):
             print(" ".join("U+{:04X}".format(ord(x)) for x in str(res)) + " should be " + \
                   " ".join("U+{:04X}".format(ord(x)) for x in test))
         errors += 1
-sys.exit(errors)
+sys.exit(min(errors, 255))
-- 
2.43.0


From 1f1e136d75f351f31040eae2103cb4fa049381cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:11 +0000
Subject: [PATCH 087/119] fix: icubreaktext did nothing with --noflatten and
 crashed without rules

---
 scripts/icubreaktext | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/scripts/icubreaktext b/scripts/icubreaktext
index ff7a25d..db71435 100755
--- a/scripts/icubreaktext
+++ b/scripts/icubreaktext
@@ -28,28 +28,28 @@ if args.dir is not None:
         doc = getldml(args.lang, [args.dir])
     else:
         doc = flattenlocale(args.lang, [args.dir])
-        c = doc.find('./segmentations/segmentation[@type="{}"]'.format(breaktypes[args.type][0]))
-        if c is None:
-            sys.stderr("Can't find segmentations in {}".format(args.lang))
-        else:
-            lines = []
-            ts = graphlib.TopologicalSorter()
-            vars = {}
-            for var in c.findall('variables/variable'):
-                i = var.get('id')
-                vars[i] = var.text.strip()
-                ts.add(i)
-                for m in re.findall(r"(\$[a-zA-Z]+)", var.text):
-                    ts.add(i, m)
-            for k in ts.static_order():
-                lines.append("{}=[{}]".format(k, vars[k]))
-            rules = list(c.findall('segmentRules/rule'))
-            for r in sorted(rules, key=lambda x:float(x.get('id'))):
-                lines.append(r.text.strip())
-            r = ";\n".join(lines) + ";\n"
-            if args.debug:
-                print(r)
-            brk = icu.RuleBasedBreakIterator(r)
+    c = doc.find('./segmentations/segmentation[@type="{}"]'.format(breaktypes[args.type][0]))
+    if c is None:
+        sys.stderr.write("Can't find segmentations in {}\n".format(args.lang))
+    else:
+        lines = []
+        ts = graphlib.TopologicalSorter()
+        vars = {}
+        for var in c.findall('variables/variable'):
+            i = var.get('id')
+            vars[i] = var.text.strip()
+            ts.add(i)
+            for m in re.findall(r"(\$[a-zA-Z]+)", var.text):
+                ts.add(i, m)
+        for k in ts.static_order():
+            lines.append("{}=[{}]".format(k, vars[k]))
+        rules = list(c.findall('segmentRules/rule'))
+        for r in sorted(rules, key=lambda x:float(x.get('id'))):
+            lines.append(r.text.strip())
+        r = ";\n".join(lines) + ";\n"
+        if args.debug:
+            print(r)
+        brk = icu.RuleBasedBreakIterator(r)
 elif args.lang is not None:
     loc = icu.Locale.createFromName(args.lang)
     brk = breaktypes[args.type][1](loc)
-- 
2.43.0


From 1b25faae3f76a852e15bdb94b09b49f8c077c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:29 +0000
Subject: [PATCH 088/119] fix: icubreaktext crashed on variables whose names
 have more than letters

---
 scripts/icubreaktext | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/icubreaktext b/scripts/icubreaktext
index db71435..9b1d44d 100755
--- a/scripts/icubreaktext
+++ b/scripts/icubreaktext
@@ -39,7 +39,7 @@ if args.dir is not None:
             i = var.get('id')
             vars[i] = var.text.strip()
             ts.add(i)
-            for m in re.findall(r"(\$[a-zA-Z]+)", var.text):
+            for m in re.findall(r"(\$[a-zA-Z_][a-zA-Z0-9_]*)", var.text):
                 ts.add(i, m)
         for k in ts.static_order():
             lines.append("{}=[{}]".format(k, vars[k]))
-- 
2.43.0


From ff5d507b651f98cb22df540c8b7e1ac9d1fee732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:29 +0000
Subject: [PATCH 089/119] fix: icubreaktext broke text at wrong places after
 characters beyond the BMP

---
 scripts/icubreaktext | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/icubreaktext b/scripts/icubreaktext
index 9b1d44d..4239800 100755
--- a/scripts/icubreaktext
+++ b/scripts/icubreaktext
@@ -63,11 +63,13 @@ if brk is not None:
     with open(args.infile, encoding="utf-8") as inf:
         for data in inf.readlines():
             l = data.strip()
+            # ICU counts in UTF-16
+            pos = [i for i, c in enumerate(l) for _ in range(2 if ord(c) > 0xFFFF else 1)] + [len(l)]
             brk.setText(l)
             last = 0
             res = []
             for b in brk:
-                res.append(l[last:b])
+                res.append(l[pos[last]:pos[b]])
                 last = b
             outf.write("|".join(res) + "\n")
 
-- 
2.43.0


From b8b7cb24eba5ec9d1deb03160d854913a87fe730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:50 +0000
Subject: [PATCH 090/119] fix: fixsldr --debug crashed

---
 scripts/fixsldr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/fixsldr b/scripts/fixsldr
index fa77b08..3248ac7 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -117,13 +117,13 @@ def doit(l) :
     try :
         curr = Ldml(l)
     except Exception as e :
-        print("Failed in " + l.encode('utf-8'))
+        print("Failed in " + l)
         raise e
     if curr is None : 
-        print("Reading resulted in nothing for " + l.encode('utf-8'))
+        print("Reading resulted in nothing for " + l)
         return
     elif args.debug :
-        print("Processing " + l.encode('utf-8'))
+        print("Processing " + l)
 
     # handle demoting orientation too layout/orientation
     orient = curr.root.find('orientation')
-- 
2.43.0


From d61970c841d1d62f791a38e5d6e73d1d85a33c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 091/119] fix: fixsldr crashed when an element has to be added

---
 scripts/fixsldr | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/scripts/fixsldr b/scripts/fixsldr
index 3248ac7..2a0c6a2 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -29,7 +29,7 @@ from sldr.ldml_merge import flattenlocale
 import os, sys, codecs
 from argparse import ArgumentParser
 from multiprocessing import Pool
-from xml.etree.ElementTree import ElementTree, Element, SubElement, parse
+from xml.etree.ElementTree import parse
 
 parser = ArgumentParser()
 parser.add_argument('-o','--outdir', help='Directory to store results in')
@@ -104,14 +104,7 @@ if args.iso :
 
 def add_silidentity(ldml) :
     ldml.add_namespace('sil', silns[1:-1])
-    identity = ldml.root.find('identity')
-    if identity is None :
-        identity = SubElement(ldml.root, 'identity')
-    silident = identity.find('special/'+silns+'identity')
-    if silident is None :
-        temp = SubElement(identity, 'special')
-        silident = SubElement(temp, silns+'identity')
-    return silident
+    return ldml.ensure_path('identity/special/sil:identity')[0]
 
 def doit(l) :
     try :
@@ -138,7 +131,7 @@ def doit(l) :
         if len(orient) > 0 :
             layout = curr.root.find('layout')
             if layout is None :
-                layout = SubElement(curr.root, 'layout')
+                layout = curr.ensure_path('layout')[0]
             layout.append(orient)
     status = curr.root.find('status')
     if status is not None :
-- 
2.43.0


From e8bf6dba704ed984db15ed3d91df622e00bf4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:09 +0000
Subject: [PATCH 092/119] fix: fixsldr took the code of Guinea-Bissau for that
 of Guinea

---
 scripts/fixsldr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fixsldr b/scripts/fixsldr
index 2a0c6a2..626e746 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -67,7 +67,7 @@ regionmap = {
     "Eritrea" : "ER",
     "Ethiopia" : "ET",
     "Ghana" : "GH",
-    "Guinea" : "GW",
+    "Guinea" : "GN",
     "Iran" : "IR",
     "Kenya" : "KE",
     "Liberia" : "LR",
-- 
2.43.0


From cc2aec46b2d23fd975875993937c3a2784c5ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 093/119] fix: icupretty --adddot crashed

---
 scripts/icupretty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/icupretty b/scripts/icupretty
index faaa5de..0921516 100755
--- a/scripts/icupretty
+++ b/scripts/icupretty
@@ -41,7 +41,7 @@ if args.adddot:
     # Make this a list, since coll is modified in the loop body
     for k, v in list(coll.items()):
         if k.rstrip().endswith("\u103A"):
-            n = CollElement(k, 4)
+            n = CollElement(k, 4, 0)
             n.exp = "\u1037"
             n.order = tuple(list(v.order) + [1])
             n.key = v.key
-- 
2.43.0


From 4102d8c80086df4b7b2656f0e20bad3d5536dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 094/119] fix: an element was written after another one that
 happens to have the same sort key as its base

---
 lib/sldr/collation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7dea102..268ec79 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -268,6 +268,17 @@ class Collation(UserDict):
             return False
         return cmpKey(av.key, bv.key, level)
 
+    def _follows(self, base, last, level):
+        """ Is last the base, or only different from it beyond the level? """
+        seen = set()
+        while last != base:
+            e = self.get(last, None)
+            if e is None or e.level <= level or last in seen:
+                return False
+            seen.add(last)
+            last = e.base
+        return True
+
     def asICU(self, wrap=0, withkeys=False, ordering=lambda x:x[1].shortkey): 
         # needs fix to factor in characters coming before 'a' syntax, see llu.xml in sldr for an example of what that's supposed to look like. this needs to apply to all strengths of sorting
         """Returns ICU tailoring syntax of this Collation"""
@@ -284,7 +295,7 @@ class Collation(UserDict):
                 res += v.prefix
             if k in skip:
                 continue
-            if not self.cmpKeys(v.base, lastk, v.level) and v.base != eqchain or v.before != lastbefore:
+            if not (self.cmpKeys(v.base, lastk, v.level) and self._follows(v.base, lastk, v.level)) and v.base != eqchain or v.before != lastbefore:
                 loc = len(res) + 1
                 res += "\n&" + (f"[before {v.before}]" if v.before else "") + escape(v.base)
                 eqchain = None
-- 
2.43.0


From 84781b1880cd9f87e9ad7c7564ed17527663f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:21 +0000
Subject: [PATCH 095/119] fix: a merge lost the change of an attribute that the
 other side had removed

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 1cb750f..ce8fb2e 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -345,7 +345,8 @@ class LdmlMerge(Ldml):
                     self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
-            elif base is not None and k in base.attrib:                        # o deleted it
+            elif base is not None and k in base.attrib \
+                    and (base.get(k) == this.get(k) or self.winner == "other"):    # o deleted it
                 this.attrib.pop(k)
                 res = True
         for k in oattrs:                                       # attributes in o not in t
-- 
2.43.0


From 727654ef6ab4c4e8381afbb1b1e3a3a5d06d3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:45 +0000
Subject: [PATCH 096/119] fix: the text after a comment was lost when a
 document was read

---
 lib/sldr/ldml.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index cbce755..e61fd1e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -475,9 +475,9 @@ class Ldml(ETWriter):
                         self.root = elem
                     curr = elem
             elif elem.tag == '!--':
-                if curr is not None:
-                    curr.remove(elem)
+                pass            # removed at the end of its parent, once what follows it is known
             else:
+                self._dropcomments(elem)
                 if len(comments) and len(elem):
                     elem[-1].commentsafter = comments
                     comments = []
@@ -493,6 +493,19 @@ class Ldml(ETWriter):
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
 
+    def _dropcomments(self, elem):
+        ''' Removes the pseudo elements of comments, keeping the text after them '''
+        last = None
+        for c in list(elem):
+            if c.tag != '!--':
+                last = c
+                continue
+            if c.tail and last is not None:
+                last.tail = (last.tail or "") + c.tail
+            elif c.tail:
+                elem.text = (elem.text or "") + c.tail
+            elem.remove(c)
+
     def _copynode(self, n, parent=None):
         res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
-- 
2.43.0


From b878e82cd674d2ab4fc630bd563c078fb19875c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:13 +0000
Subject: [PATCH 097/119] fix: a document that only inherits could not be read

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e61fd1e..a8b5d0c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -482,12 +482,12 @@ class Ldml(ETWriter):
                     elem[-1].commentsafter = comments
                     comments = []
                 curr = getattr(elem, 'parent', None)
-                if not uparrows:
+                if not uparrows and curr is not None:       # the root has to stay
                     if elem.text == "↑↑↑" or \
                                 (getattr(elem, 'hasdeletedchild', False) and len(elem) == 0):
                         curr.remove(elem)
                         curr.hasdeletedchild = True
-                    elif curr is not None:
+                    else:
                         curr.hasdeletedchild = False
         fh.close()
         self._analyse()
-- 
2.43.0


From 3ca2ec385d05b1144f59b504be13467cafcebe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 098/119] fix: proccldrcomments lost tabs and new lines in
 attributes

---
 scripts/proccldrcomments | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/proccldrcomments b/scripts/proccldrcomments
index c226be5..a347821 100755
--- a/scripts/proccldrcomments
+++ b/scripts/proccldrcomments
@@ -10,6 +10,9 @@ _elementprotect = {
     '>': '&gt;' }
 _attribprotect = dict(_elementprotect)
 _attribprotect['"'] = '&quot;'
+_attribprotect['\t'] = '&#9;'
+_attribprotect['\n'] = '&#10;'
+_attribprotect['\r'] = '&#13;'
 
 cldrtns = "{urn://unicode.org/cldr/types/0.1}"
 
-- 
2.43.0


From 322a10a2b9a4cf9863f3ac9a03ea1fee41616f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 099/119] fix: proccldrcomments lost the text after a comment

---
 scripts/proccldrcomments | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scripts/proccldrcomments b/scripts/proccldrcomments
index a347821..45c07e0 100755
--- a/scripts/proccldrcomments
+++ b/scripts/proccldrcomments
@@ -70,13 +70,26 @@ class ETWriter(object):
                         self.root = elem
                     curr = elem
             elif elem.tag == '!--':
-                if curr is not None:
-                    curr.remove(elem)
+                pass            # removed at the end of its parent, once what follows it is known
             else:
+                self._dropcomments(elem)
                 last = curr
                 curr = getattr(elem, 'parent', None)
         fh.close()
 
+    def _dropcomments(self, elem):
+        ''' Removes the pseudo elements of comments, keeping the text after them '''
+        last = None
+        for c in list(elem):
+            if c.tag != '!--':
+                last = c
+                continue
+            if c.tail and last is not None:
+                last.tail = (last.tail or "") + c.tail
+            elif c.tail:
+                elem.text = (elem.text or "") + c.tail
+            elem.remove(c)
+
     def _proc_comment(self, curr, last, text):
         if curr is None:
             return
-- 
2.43.0


From cb84f485f462d2b82828676c79e66a9ee60233f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 100/119] fix: proccldrcomments crashed on a comment before all
 elements

---
 scripts/proccldrcomments | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/proccldrcomments b/scripts/proccldrcomments
index 45c07e0..dcd1200 100755
--- a/scripts/proccldrcomments
+++ b/scripts/proccldrcomments
@@ -91,7 +91,7 @@ class ETWriter(object):
             elem.remove(c)
 
     def _proc_comment(self, curr, last, text):
-        if curr is None:
+        if curr is None or last is None:
             return
         m = re.match(r"^\s*@([A-Z]+)\s*(?::(.*?))?\s*$", text)
         if m is None:
-- 
2.43.0


From ba3c18b97e20ac181d5a08482869ef8efb59fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:26 +0000
Subject: [PATCH 101/119] fix: comments at the end of a document were lost

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index a8b5d0c..f1b9cba 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -490,6 +490,8 @@ class Ldml(ETWriter):
                     else:
                         curr.hasdeletedchild = False
         fh.close()
+        if len(comments):       # after everything
+            self.root.commentsafter = comments
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
 
-- 
2.43.0


From b40a9d859f77a96fd956400312710b4bf9c74c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:38 +0000
Subject: [PATCH 102/119] fix: a language was not found for its likely subtags
 from the extras

---
 lib/sldr/langtags_full.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 0b1b56d..bda4ae7 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -373,6 +373,7 @@ class LangTags(with_metaclass(Singleton, dict)):
                 to = LangTag(row['likely_subtag']).analyse(self)
                 if base.script is None : to.hidescript = True
                 if base.region is None : to.hideregion = True
+                to.hideboth = base.hideboth
                 self.add(to)
         
     def readIana(self, fname = None) :
-- 
2.43.0


From 705f82a695fb9cb33a1b7cadca8465ce9dcfbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:50 +0000
Subject: [PATCH 103/119] fix: the negation of a set was lost when a normal
 form was asked for

---
 lib/sldr/UnicodeSets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 8cb60b2..2022464 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -225,7 +225,10 @@ def parse(s, normal=None):
         if len(nextitem):
             res.append(nextitem)
     if normal is not None:
-        res = [UnicodeSet(set(unicodedata.normalize(normal, str(c)) for c in x)) for x in res]
+        for x in res:
+            items = [unicodedata.normalize(normal, str(c)) for c in x]
+            x.clear()
+            x.update(items)
     return res
 
 
-- 
2.43.0


From eda0dd037fc2d9deb2799fc25e130b21b81bd4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:11 +0000
Subject: [PATCH 104/119] fix: a locale whose name ends in that of another one
 imports the collations of that one, not its own

---
 lib/sldr/ldml_merge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index ce8fb2e..b03a5f0 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -452,8 +452,8 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
             while len(f):
                 o = getldml(f, dirs)
                 if o is not None:
-                    os = getscript(o)
-                    if os is None or os == ls:
+                    oscript = getscript(o)
+                    if oscript is None or oscript == ls:
                         if rev == 'r':
                             l.difference(o)
                             dome = False
@@ -471,7 +471,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         collmap = {'phonebk' : 'phonebook'}
         def getcollator(lang, coll):
             try:
-                if l.fname.endswith(lang+'.xml'):
+                if os.path.basename(l.fname) == lang + '.xml':
                     c = l
                 else:
                     c = getldml(('root' if lang == 'und' else lang), dirs)
-- 
2.43.0


From 8d84c7e6bdc00a4749727a5babefab2938ee6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:11 +0000
Subject: [PATCH 105/119] fix: collations are imported from locales with a
 script or region too

---
 lib/sldr/ldml_merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index b03a5f0..079c850 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -470,6 +470,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
     if flattencollation:
         collmap = {'phonebk' : 'phonebook'}
         def getcollator(lang, coll):
+            lang = lang.replace('-', '_')
             try:
                 if os.path.basename(l.fname) == lang + '.xml':
                     c = l
-- 
2.43.0


From ec1d1a5c52e45726a6febf99665aae48e6258c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:11 +0000
Subject: [PATCH 106/119] fix: collations are imported by every short name of
 their types

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 079c850..4056cbf 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -468,7 +468,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         l.resolve_aliases()
     if skipstubs and len(l.root) == 1 and l.root[0].tag == 'identity': return None
     if flattencollation:
-        collmap = {'phonebk' : 'phonebook'}
+        collmap = {'phonebk' : 'phonebook', 'trad' : 'traditional', 'dict' : 'dictionary', 'gb2312' : 'gb2312han'}
         def getcollator(lang, coll):
             lang = lang.replace('-', '_')
             try:
-- 
2.43.0


From b89b3f726e6c91d0975d7fa41b217c3ba706123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:03 +0000
Subject: [PATCH 107/119] fix: a nukta after another mark does not make that
 mark part of the base

---
 lib/sldr/ldml_exemplars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 9a3fc9f..a9ef86e 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -772,8 +772,9 @@ class Exemplars(object):
                     # A Mark was found, so the cluster continues.
                     length += 1
 
-                    # Marks such as nuktas are considered part of the base.
-                    if self.ucd.is_always_combine(trailer):
+                    # Marks such as nuktas are considered part of the base
+                    # (if no other trailer is between them and the base).
+                    if self.ucd.is_always_combine(trailer) and length == base_length + 1:
                         # A Mark such as a nukta was found, so the base continues,
                         # as well as the cluster.
                         base_length += 1
-- 
2.43.0


From 4783ac4be91b44b3d5f617ea06652e090fd83323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:26 +0000
Subject: [PATCH 108/119] fix: normalising puts siblings whose attributes
 differ in case only into one order

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index f1b9cba..d45af53 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -807,7 +807,7 @@ class Ldml(ETWriter):
                         res += (k, self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))
                     else:
                         res += (k, a.lower())
-                return res
+                return (res, [x.get(l) for l in xl])    # no two orders if only their case differs
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-- 
2.43.0


From 1e726d675dd6e102c6c512e19ad29158fb404c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:47 +0000
Subject: [PATCH 109/119] fix: attribute values and headings of sheets may have
 quotes in them

---
 lib/sldr/sheet.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 481ca49..f9b958c 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -102,6 +102,15 @@ class Sheet(object):
         except StopIteration:
             return None
 
+    @staticmethod
+    def _fillin(beg, value, end):
+        """Puts value between the parts of a path, in quotes of the other kind if it has those around it"""
+        quote = beg[-1:]
+        if quote in ("'", '"') and end.startswith(quote) and quote in value:
+            other = "'" if quote == '"' else '"'
+            return beg[:-1] + other + value + other + end[1:]
+        return beg + value + end
+
     def _writeldmlitem(self, path, value, writevalue=True):
         """Uses path, value and writevalue flag to make entry in Ldml object"""
         # If "writevalue" flag is set False, then value is already in path and doesn't need to be written
@@ -112,23 +121,23 @@ class Sheet(object):
     def _action_ldml(self, path, value, attronly, atname):
         if value != "":
             if attronly:
-                self._writeldmlitem(path[:-1] + "='" + value + "']", None, False)
+                self._writeldmlitem(self._fillin(path[:-1] + "='", value, "']"), None, False)
             else:
                 self._writeldmlitem(path, value)
 
     def _action1d_ldml(self, datarow, p1, p2):
         if len(datarow) > 2 and datarow[2] != "":
-            self._writeldmlitem(p1 + datarow[0] + p2, datarow[2])
+            self._writeldmlitem(self._fillin(p1, datarow[0], p2), datarow[2])
 
     def _action2d_ldml(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead,2):
             if len(datarow) > colnum and datarow[colnum] != "":
-                self._writeldmlitem(p1 + col + p2 + datarow[0] + p3, datarow[colnum])
+                self._writeldmlitem(self._fillin(self._fillin(p1, col, p2), datarow[0], p3), datarow[colnum])
 
     def _action2dr_ldml(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead,2):
             if len(datarow) > colnum and datarow[colnum] != "":
-                self._writeldmlitem(p1 + datarow[0] + p2 + col + p3, datarow[colnum])
+                self._writeldmlitem(self._fillin(self._fillin(p1, datarow[0], p2), col, p3), datarow[colnum])
 
     def _action2dx_ldml(self, datarow, p1, p2):
         rowitem = datarow[1]
@@ -138,7 +147,7 @@ class Sheet(object):
             if colnum + 2 >= datarowlimit: return
             dataitem = datarow[colnum + 2]
             if dataitem != "":
-                self._writeldmlitem(p1[colnum] + rowitem + p2[colnum], datarow[colnum + 2])
+                self._writeldmlitem(self._fillin(p1[colnum], rowitem, p2[colnum]), datarow[colnum + 2])
 
     def _writeodsitem(self, col, value):
         """Uses col and value to make entry in ods file (using self.currentrow)"""
@@ -198,7 +207,7 @@ class Sheet(object):
                 self._writeodsitem(4, v)
 
     def _action1d_ods(self, datarow, p1, p2):
-        v = self._find(p1 + datarow[0] + p2)
+        v = self._find(self._fillin(p1, datarow[0], p2))
         if v is not None:
             value = v.text
             if value != "":
@@ -206,7 +215,7 @@ class Sheet(object):
 
     def _action2d_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self._find(p1 + col + p2 + datarow[0] + p3)
+            v = self._find(self._fillin(self._fillin(p1, col, p2), datarow[0], p3))
             if v is not None:
                 value = v.text
                 if value != "":
@@ -214,7 +223,7 @@ class Sheet(object):
 
     def _action2dr_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self._find(p1 + datarow[0] + p2 + col + p3)
+            v = self._find(self._fillin(self._fillin(p1, datarow[0], p2), col, p3))
             if v is not None:
                 value = v.text
                 if value != "":
@@ -224,7 +233,7 @@ class Sheet(object):
         rowitem = datarow[1]
         if rowitem  == "": return
         for colnum in range(len(p1)):
-            v = self._find(p1[colnum] + rowitem + p2[colnum])
+            v = self._find(self._fillin(p1[colnum], rowitem, p2[colnum]))
             if v is not None:
                 value = v.text
                 if value != "":
-- 
2.43.0


From 9b820a9e05473dd6b13e74894cfe6605df72249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:23 +0000
Subject: [PATCH 110/119] fix: cells after a run of ten or more others are in
 their own columns

---
 lib/sldr/sheet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index f9b958c..e6aa911 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -71,14 +71,13 @@ class Sheet(object):
             for r in s.childNodes:
                 if r.tagName != 'table:table-row': continue
                 nodes = []
+                runs = []
                 for c in r.childNodes:
                     if c.tagName != 'table:table-cell': continue
                     count = 1
                     repeatedcols = c.getAttribute('numbercolumnsrepeated')
                     if repeatedcols:
-                        repcount = int(repeatedcols)
-                        if repcount < 10: # avoid 1000+ counts of empty cells at end of row
-                            count = repcount
+                        count = int(repeatedcols)
                     n = ""
                     if c.hasChildNodes():
                         for e in c.childNodes:
@@ -89,6 +88,10 @@ class Sheet(object):
                                     n = t.data
                                     break
                             break ### check position
+                    runs.append((n, count))
+                if len(runs) and runs[-1][0] == "" and runs[-1][1] >= 10:
+                    runs[-1] = ("", 1) # avoid 1000+ counts of empty cells at end of row
+                for n, count in runs:
                     for repcount in range(count):
                         nodes.append(n)
                 self.currentrow = r
-- 
2.43.0


From 4d4f9ef859a26dcee97fbd083348bbde2c9e4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:23 +0000
Subject: [PATCH 111/119] fix: the text of a cell may be in several parts, or
 come after a comment on the cell

---
 lib/sldr/sheet.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index e6aa911..d076e1b 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -1,6 +1,7 @@
 from sldr.ldml import Ldml
 from odf.opendocument import load
 from odf.table import Table, TableCell, TableColumn, TableRow ### only TableCell is used currently
+from odf.teletype import extractText
 from odf.text import P
 import csv
 import re
@@ -83,10 +84,7 @@ class Sheet(object):
                         for e in c.childNodes:
                             if e.tagName != 'text:p': continue
                             if e.hasChildNodes():
-                                for t in e.childNodes:
-                                    if t.tagName != 'Text': continue
-                                    n = t.data
-                                    break
+                                n = extractText(e)
                             break ### check position
                     runs.append((n, count))
                 if len(runs) and runs[-1][0] == "" and runs[-1][1] >= 10:
@@ -187,10 +185,11 @@ class Sheet(object):
             else:
                 x = r.insertBefore(c2, c.nextSibling)
         if c.hasChildNodes():
-            ### perhaps should test that child is text:p and its child is Text
-            c.firstChild.firstChild.data = value
-        else:
-            c.addElement(P(text=value))
+            # only the text is replaced, not a comment on the cell
+            for p in list(c.childNodes):
+                if p.tagName == 'text:p':
+                    c.removeChild(p)
+        c.addElement(P(text=value))
 
     def _find(self, path):
         """Finds the element of a path, not one that is of some type when the path has none"""
-- 
2.43.0


From 62dcddab8bb60b977483e2bfbe432eff36dff4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:35 +0000
Subject: [PATCH 112/119] fix: the other cells of a run keep their text when
 one of them is filled in

---
 lib/sldr/sheet.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index d076e1b..a6811f4 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -150,6 +150,15 @@ class Sheet(object):
             if dataitem != "":
                 self._writeldmlitem(self._fillin(p1[colnum], rowitem, p2[colnum]), datarow[colnum + 2])
 
+    @staticmethod
+    def _samecell(c):
+        """A cell with the text of c"""
+        res = TableCell()
+        for p in c.childNodes:
+            if p.tagName == 'text:p':
+                res.addElement(P(text=extractText(p)))
+        return res
+
     def _writeodsitem(self, col, value):
         """Uses col and value to make entry in ods file (using self.currentrow)"""
         # column numbering starts at 1 for spreadsheet column A
@@ -172,13 +181,13 @@ class Sheet(object):
         countbefore = targetcol - curcol - 1
         countafter = curcol + repcount - targetcol
         if countbefore > 0:
-            c1 = TableCell()
+            c1 = self._samecell(c)
             c1.setAttribute('numbercolumnsrepeated', str(countbefore))
             c.setAttribute('numbercolumnsrepeated', str(countafter + 1))
             x = r.insertBefore(c1, c)
         if countafter > 0:
             c.setAttribute('numbercolumnsrepeated', '1')
-            c2 = TableCell()
+            c2 = self._samecell(c)
             c2.setAttribute('numbercolumnsrepeated', str(countafter))
             if c == r.lastChild:
                 x = r.appendChild(c2)
-- 
2.43.0


From 69794b2cbec82717357971e9273c72f4b6a5d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:35 +0000
Subject: [PATCH 113/119] fix: cells covered by a merged cell are in columns of
 their own

---
 lib/sldr/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index a6811f4..3d773c3 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -74,7 +74,7 @@ class Sheet(object):
                 nodes = []
                 runs = []
                 for c in r.childNodes:
-                    if c.tagName != 'table:table-cell': continue
+                    if c.tagName not in ('table:table-cell', 'table:covered-table-cell'): continue
                     count = 1
                     repeatedcols = c.getAttribute('numbercolumnsrepeated')
                     if repeatedcols:
@@ -166,7 +166,7 @@ class Sheet(object):
         targetcol = col
         r = self.currentrow
         for c in r.childNodes:
-            if c.tagName != 'table:table-cell': continue
+            if c.tagName not in ('table:table-cell', 'table:covered-table-cell'): continue
             repeatedcols = c.getAttribute('numbercolumnsrepeated')
             repcount = int(repeatedcols) if repeatedcols else 1
             if curcol + repcount >= targetcol: break
-- 
2.43.0


From ec202fd9743e6d896bc2430a20db85c547295284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:07 +0000
Subject: [PATCH 114/119] fix: the script of a full tag was hidden when another
 region or none was listed without it

---
 lib/sldr/langtags_full.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index bda4ae7..38ec36f 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -337,7 +337,8 @@ class LangTags(with_metaclass(Singleton, dict)):
                         self[t] = ltag
                         for t in tags:
                             lt = LangTag(tag=t)
-                            if ltag.lang == lt.lang:
+                            # what is hidden is told by tags of the same region only
+                            if ltag.lang == lt.lang and ltag.region == lt.region:
                                 if lt.script is None and lt.region is None:
                                     lt.hideboth = True
                                 ltag.merge_equivalent(lt)
-- 
2.43.0


From 5e9ab9be8ff849e2ebc8488c3f7cf838a4c71b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:02 +0000
Subject: [PATCH 115/119] fix: a parent without an SLDR file was found for the
 world region when one with it was asked for

---
 lib/sldr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/utils.py b/lib/sldr/utils.py
index 74b1919..8e321c6 100644
--- a/lib/sldr/utils.py
+++ b/lib/sldr/utils.py
@@ -70,7 +70,8 @@ def find_parents(langid, to_root = True, needs_sldr = False, match_script = True
                     return False, str(tagset), tagset, [str(tagset)]
         if variant == "001":
             if to_root == False:
-                return False, str(tagset), tagset, [str(tagset)]
+                if (needs_sldr and _has_sldr(tagset)) or needs_sldr == False:
+                    return False, str(tagset), tagset, [str(tagset)]
         if hasattr(tagset, "variants") and variant in tagset.variants:
             if to_root == False:
                 if (needs_sldr and _has_sldr(tagset)) or needs_sldr == False:
-- 
2.43.0


From abb986b1b40f8f744755342688737858d8588d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:01 +0000
Subject: [PATCH 116/119] fix: quotation marks of another type (narrative) were
 lost when a document was read

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d45af53..7eb0c4e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -322,7 +322,7 @@ class Ldml(ETWriter):
             else:
                 cls.keys.update(e.get('attributes').split())
         cls.keyContexts['{'+cls.silns+'}matched-pair'] = set(['open', 'close'])
-        cls.keyContexts['{'+cls.silns+'}quotation'] = set(['level'])
+        cls.keyContexts['{'+cls.silns+'}quotation'] = set(['level', 'type'])
         cls.keyContexts['{'+cls.silns+'}punctuation-pattern'] = set(['context', 'pattern'])
 
     @classmethod
-- 
2.43.0


From ecfce9222249762748f531199707fa3ee93e9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:36 +0000
Subject: [PATCH 117/119] fix: a merge lost a changed text, or a changed
 alternate of it, if both were changed

---
 lib/sldr/ldml_merge.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 4056cbf..c22f2e7 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -302,12 +302,14 @@ class LdmlMerge(Ldml):
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
-                    if not self.useDrafts or \
-                            not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
-                        this.remove(t)                                  # swap us out
-                        this.append(t.mergeOther)
-                        t.mergeOther.parent = this
-                        res = True
+                    if self.useDrafts:                                  # keep our alternates
+                        self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                        if hasattr(t, 'alternates'):
+                            t.mergeOther.alternates = t.alternates
+                    this.remove(t)                                      # swap us out
+                    this.append(t.mergeOther)
+                    t.mergeOther.parent = this
+                    res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
-- 
2.43.0


From d130bd89f50333683d4e75920020795a12f40299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:27 +0000
Subject: [PATCH 118/119] fix: a merge lost a changed alternate of a text that
 both sides had changed alike

---
 lib/sldr/ldml_merge.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index c22f2e7..fef3a76 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -277,6 +277,17 @@ class LdmlMerge(Ldml):
         return res
 
     
+    def _take_changed_alts(self, base, other, target):
+        """Takes those alternates from other that only other has changed. Returns True if there are any."""
+        res = False
+        (balt, oalt, talt) = (getattr(x, 'alternates', {}) for x in (base, other, target))
+        for k in talt:
+            if k in balt and k in oalt and talt[k].contentHash == balt[k].contentHash \
+                    and oalt[k].contentHash != balt[k].contentHash:
+                talt[k] = oalt[k]
+                res = True
+        return res
+
     def _add_alt(self, target, origin, default='unconfirmed'):
         self._add_alt_leaf(target, copy.copy(origin),
                 default=default, leaf=origin.contentHash is not None,
@@ -298,6 +309,8 @@ class LdmlMerge(Ldml):
                         # both added it, take what is in either
                         res |= self.merge(t.mergeOther, None, t, default=default, copycomments=copycomments)
                     elif self.useDrafts:        # the same content may have other alternates
+                        for b in (x for x in (base if base is not None else []) if x.attrHash == t.attrHash):
+                            res |= self._take_changed_alts(b, t.mergeOther, t)
                         res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
-- 
2.43.0


From cb50ad9351b2381bd95a4943431d147c20a6312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:44 +0000
Subject: [PATCH 119/119] fix: a reset was not written after an equal element
 that has an expansion

---
 lib/sldr/collation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 268ec79..847afbe 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -306,7 +306,9 @@ class Collation(UserDict):
                 res += " "
             if v.level == 4:
                 res += "= "
-                if eqchain is None:
+                if v.exp:       # not the same as its base
+                    eqchain = None
+                elif eqchain is None:
                     eqchain = v.base
             else:
                 res += ("<<<"[:v.level]) + " "
-- 
2.43.0

