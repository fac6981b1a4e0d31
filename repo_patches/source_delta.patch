From 251d0c0323d3344d02c66e924eb4990eee26ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 01/16] fix: solve_index must not match every position with a
 zero-dimensional index

Assigning an element of a COO, FlatCOO, CSR (or DM of these) array
overwrote all the specified elements of the array.
---
 gcs/slice_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..18d0ab7 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -339,6 +339,9 @@ def solve_index(pos, shape, strides, data=None):
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
+    if not z0:
+        # zero-dimensional array has a single element, its position is 0
+        return None if pos else ()
     assert not shape or s is not None
     if pos % d:
         return  # no solution exists
-- 
2.43.0


From 6933bf05e668ea3b82d07cb2ee08bb8bc10d1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 02/16] fix: take roffset into account when slicing fixes all
 dimensions of a reduced dimension

For a DM array d, d[1:][0] returned the row d[0].
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From 43f016039565994ea78473c7c892c37ac89cd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 03/16] fix: ZeroDivisionError from slicing an axis of size 0

---
 gcs/slice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 18d0ab7..551b7d0 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size if size else 0)
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size if size else 0)
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
-- 
2.43.0


From b4bd31b1945f1a567185498af8a7ef83a8c2b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 04/16] fix: IndexError from slicing an empty Buffer

It made impossible to convert an array with no specified elements to
CSR or to slice an empty Strided array.
---
 gcs/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..a882259 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -560,14 +560,14 @@ class Buffer(Storage):
         if isinstance(index, slice):
             start = self.offset + index.start if index.start is not None else self.offset
             stop = self.offset + index.stop if index.stop is not None else self.offset + self.size
-            if start < 0 or start >= len(self.data):
+            if start < 0 or start > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} start position must be in'
-                    f' range({len(self.data)}), got {start}')
-            if stop <= 0 or stop > len(self.data):
+                    f' range({len(self.data)+1}), got {start}')
+            if stop < 0 or stop > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} stop position must be in '
-                    f'range(1, {len(self.data)+1}), got {stop}')
+                    f'range({len(self.data)+1}), got {stop}')
             s = slice(start, stop, index.step)
             s = slice_tools.reduced(s, len(self.data))
             if s.step != 1:
-- 
2.43.0


From 3086d13311061f2409f00189a4bc7e02dcf1e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 05/16] fix: raise IndexError on out of range integer index

Such indices were silently wrapped around, so that iterating over an
array never terminated.
---
 gcs/slice_tools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 551b7d0..558b419 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -127,11 +127,19 @@ def index_strided(index, shape, strides, offset=0):
     return tuple(new_shape), tuple(new_strides), offset
 
 
+def normalize_int(index, size):
+    """Return non-negative integer index.
+    """
+    if not -size <= index < size:
+        raise IndexError(f'index {index} is out of range for axis with size {size}')
+    return index % size
+
+
 def normalize_index(index, shape):
     """Reduce slice indices and normalize negative integer indices.
     """
     if isinstance(index, int):
-        return (index % shape[0],) + (None,) * (len(shape)-1)
+        return (normalize_int(index, shape[0]),) + (None,) * (len(shape)-1)
     elif isinstance(index, slice):
         return (reduced(index, shape[0]),) + (None,) * (len(shape)-1)
     elif index is None:
@@ -140,7 +148,7 @@ def normalize_index(index, shape):
     for i in range(len(index)):
         ind = index[i]
         if isinstance(ind, int):
-            new_index[i] = ind % shape[i]
+            new_index[i] = normalize_int(ind, shape[i])
         elif isinstance(ind, slice):
             new_index[i] = reduced(ind, shape[i])
         elif ind is None:
-- 
2.43.0


From 25996a5b261e50219d62831e9c643fb61045bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 06/16] fix: assignment of a value that shares data with the
 assigned array

For a Strided array s, s[:] = s[::-1] overwrote elements before reading
them.
---
 gcs/storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index a882259..ecc0a81 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -350,8 +350,11 @@ class Storage:
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
-        for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
-            self.data[data_pos] = get_value(value, value_index)
+        # value may share data with self, so read all of it before writing
+        updates = [(data_pos, get_value(value, value_index)) for value_index, data_pos
+                   in self.slice_indices_and_data_position(shape, strides, offset)]
+        for data_pos, element_value in updates:
+            self.data[data_pos] = element_value
 
     def get_data_position(self, index):
         raise NotImplementedError(f'{type(self).__name__}.get_data_position')
-- 
2.43.0


From 8ab260ddaf8aa56071d72068355dbbac8eca8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 07/16] fix: Strided views with negative strides compared equal
 to arrays with different elements

---
 gcs/storage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index ecc0a81..4b9f83f 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -624,6 +624,14 @@ class Strided(Storage):
     def _get_object_data(self):
         return self.shape, self.strides, self.data
 
+    def __eq__(self, other):
+        result = super().__eq__(other)
+        if result is True and self is not other:
+            # when strides are negative, elements are located outside of
+            # the compared range of buffers
+            return list(self.elements()) == list(other.elements())
+        return result
+
     def copy(self, unspecified=DEFAULT):
         """Return a row-wise contiguous copy.
         """
-- 
2.43.0


From 0850a4739040c385b7fb735f10f656a9d1f9980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 08/16] fix: element-wise equality of arrays with unspecified
 elements

Formats list unspecified elements or not, hence COO.fromobject(seq) was
not equal to seq.
---
 gcs/storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 4b9f83f..f8cf8cf 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -341,11 +341,14 @@ class Storage:
                 other = Strided.fromobject(other, unspecified=self.unspecified)
         for index, value in other.elements():
             d2[index] = value
-        if d1 != d2:
+        # elements that are not listed are unspecified
+        result = all(d1.get(index, self.unspecified) == d2.get(index, other.unspecified)
+                     for index in d1.keys() | d2.keys())
+        if not result:
             print()
             print(f'{d1=}')
             print(f'{d2=}')
-        return d1 == d2
+        return result
 
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
-- 
2.43.0


From 703cb1c2669bd4d1d104e6fc13b1321a9c33d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 09/16] fix: size and is_full of DM slices

These described the whole data storage rather than the elements of the
slice.
---
 gcs/storage.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index f8cf8cf..66d4573 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -375,6 +375,11 @@ class Storage:
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
         return self.get_slice(shape, strides, offset)
 
+    def is_specified(self, index):
+        """Return True if the element with given non-negative index is specified.
+        """
+        return self.get_data_position(index) is not None
+
     def indices_and_data_position(self):
         raise NotImplementedError(f'{type(self).__name__}.indices_and_data_position')
 
@@ -507,6 +512,9 @@ class Buffer(Storage):
         self.data = data
         self._unspecified = unspecified
 
+    def is_specified(self, index):
+        return True
+
     def _get_object_data(self):
         return self.size, self.offset, self.unspecified
 
@@ -1078,7 +1086,19 @@ class DM(Storage):
         self.rstrides = rstrides
         self.roffset = roffset
         self.data = data
-        self.size = data.size
+
+    @property
+    def size(self):
+        """The number of specified elements.
+        """
+        if product(self.shape) == product(self.data.shape):
+            return self.data.size
+        # a slice refers to a part of the data storage
+        return sum(1 for index, rindex in self.indices_and_data_position()
+                   if self.data.is_specified(rindex))
+
+    def is_specified(self, index):
+        return self.data.is_specified(self.get_data_position(index))
 
     def _get_object_data(self):
         return self.shape, self.rdimensions, self.rstrides, self.roffset, self.data
-- 
2.43.0


From 33b48a49f99dc8b980c908756122447cca7e0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 10/16] fix: slicing of DM copied the data of COO, FlatCOO and
 CSR storages

Slicing that retains the dimensionality of the storage is documented not
to access the storage data.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 66d4573..45525a9 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1156,5 +1156,5 @@ class DM(Storage):
         # storage data when the sliced array has the same
         # dimensionality (holds also for COO and CSR use cases) or
         # when the data storage uses strided storage format.
-        data = self.data[dindex] if dindex else self.data
+        data = self.data if all(i is None for i in dindex) else self.data[dindex]
         return DM(gshape, rdimensions, rstrides, roffset, data)
-- 
2.43.0


From 214206ad33d36b9217a1fcccec2b4d54d9be67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 11/16] fix: slicing of arrays with a dimension of size 0

The strides of such arrays may be zero for which solve_index failed with
an AssertionError or ZeroDivisionError.
---
 gcs/slice_tools.py | 4 ++++
 gcs/storage.py     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 558b419..1d6435e 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -214,6 +214,10 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        # an empty array has no indices, trivial data leads to no solution
+        return 1, (0,) * len(a), (), (), (), ()
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
diff --git a/gcs/storage.py b/gcs/storage.py
index 45525a9..c2a267a 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -671,6 +671,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
+        if 0 in shape:
+            # there are no elements, hence offset may be out of the range of data
+            offset = 0
         return Strided(shape, strides, self.data[offset:])
 
 
-- 
2.43.0


From 570082b7e6ae43102d83d5e42fdb7f8c7b7aed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 12/16] fix: Buffer.elements yields index tuples like other
 storages do

The index of Buffer elements was an integer while all other storages
give a tuple. As a result, the element-wise equality of a Buffer and
a storage of another format was wrong.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index c2a267a..b74f467 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -606,7 +606,7 @@ class Buffer(Storage):
     def indices_and_data_position(self):
         for data_pos in range(self.offset, self.offset + self.size):
             index = data_pos - self.offset
-            yield index, data_pos
+            yield (index,), data_pos
 
 
 class Strided(Storage):
-- 
2.43.0


From c89bf7417ddf71663127533dbfdcd79a6dbf7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 13/16] fix: versioneer reads setup.cfg also with Python 3.12

---
 versioneer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 64fea1c..8e332e3 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -339,9 +339,10 @@ def get_config_from_root(root):
     # configparser.NoOptionError (if it lacks "VCS="). See the docstring at
     # the top of versioneer.py for instructions on writing your setup.cfg .
     setup_cfg = os.path.join(root, "setup.cfg")
-    parser = configparser.SafeConfigParser()
+    # SafeConfigParser and readfp do not exist anymore in Python 3.12
+    parser = configparser.ConfigParser()
     with open(setup_cfg, "r") as f:
-        parser.readfp(f)
+        parser.read_file(f)
     VCS = parser.get("versioneer", "VCS")  # mandatory
 
     def get(parser, name):
-- 
2.43.0


From c20b234178a50657faad14ef8a90d377fb9a75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 14/16] fix: a failing git command made the import of the
 package fail

---
 gcs/_version.py |  8 ++++++--
 versioneer.py   | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 2c0692c..62beb3e 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -295,11 +295,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
diff --git a/versioneer.py b/versioneer.py
index 8e332e3..bb5db63 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -716,11 +716,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
@@ -1108,11 +1112,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 56fd01fcf5c427e4ea35c1d8c56794382f19b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 15/16] fix: versioneer setup appended to unfinished lines and
 took other paths for the version file

---
 versioneer.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index bb5db63..681828e 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1126,6 +1126,19 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     return pieces
 
 
+def append_line(filename, line):
+    """Append a line to a file, which may not end with a newline."""
+    try:
+        with open(filename, "r") as f:
+            old = f.read()
+    except EnvironmentError:
+        old = ""
+    with open(filename, "a") as f:
+        if old and not old.endswith("\n"):
+            f.write("\n")
+        f.write(line + "\n")
+
+
 def do_vcs_install(manifest_in, versionfile_source, ipy):
     """Git-specific installation logic for Versioneer.
 
@@ -1150,16 +1163,15 @@ def do_vcs_install(manifest_in, versionfile_source, ipy):
     try:
         f = open(".gitattributes", "r")
         for line in f.readlines():
-            if line.strip().startswith(versionfile_source):
-                if "export-subst" in line.strip().split()[1:]:
+            words = line.split()
+            if words and words[0] == versionfile_source:
+                if "export-subst" in words[1:]:
                     present = True
         f.close()
     except EnvironmentError:
         pass
     if not present:
-        f = open(".gitattributes", "a+")
-        f.write("%s export-subst\n" % versionfile_source)
-        f.close()
+        append_line(".gitattributes", "%s export-subst" % versionfile_source)
         files.append(".gitattributes")
     run_command(GITS, ["add", "--"] + files)
 
@@ -1766,15 +1778,13 @@ def do_setup():
     # lines is safe, though.
     if "versioneer.py" not in simple_includes:
         print(" appending 'versioneer.py' to MANIFEST.in")
-        with open(manifest_in, "a") as f:
-            f.write("include versioneer.py\n")
+        append_line(manifest_in, "include versioneer.py")
     else:
         print(" 'versioneer.py' already in MANIFEST.in")
     if cfg.versionfile_source not in simple_includes:
         print(" appending versionfile_source ('%s') to MANIFEST.in" %
               cfg.versionfile_source)
-        with open(manifest_in, "a") as f:
-            f.write("include %s\n" % cfg.versionfile_source)
+        append_line(manifest_in, "include %s" % cfg.versionfile_source)
     else:
         print(" versionfile_source already in MANIFEST.in")
 
-- 
2.43.0


From 4d72fe91602b271fde8bfbc7b3a444f250c699f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 16/16] fix: freezing restores the version file that was there,
 also when it fails

---
 versioneer.py | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 681828e..1c1f94e 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1595,20 +1595,17 @@ def get_cmdclass():
                 cfg = get_config_from_root(root)
                 versions = get_versions()
                 target_versionfile = cfg.versionfile_source
+                with open(target_versionfile, "rb") as f:
+                    original = f.read()
                 print("UPDATING %s" % target_versionfile)
-                write_to_version_file(target_versionfile, versions)
-
-                _build_exe.run(self)
-                os.unlink(target_versionfile)
-                with open(cfg.versionfile_source, "w") as f:
-                    LONG = LONG_VERSION_PY[cfg.VCS]
-                    f.write(LONG %
-                            {"DOLLAR": "$",
-                             "STYLE": cfg.style,
-                             "TAG_PREFIX": cfg.tag_prefix,
-                             "PARENTDIR_PREFIX": cfg.parentdir_prefix,
-                             "VERSIONFILE_SOURCE": cfg.versionfile_source,
-                             })
+                try:
+                    write_to_version_file(target_versionfile, versions)
+                    _build_exe.run(self)
+                finally:
+                    if os.path.exists(target_versionfile):
+                        os.unlink(target_versionfile)
+                    with open(target_versionfile, "wb") as f:
+                        f.write(original)
         cmds["build_exe"] = cmd_build_exe
         del cmds["build_py"]
 
@@ -1624,20 +1621,17 @@ def get_cmdclass():
                 cfg = get_config_from_root(root)
                 versions = get_versions()
                 target_versionfile = cfg.versionfile_source
+                with open(target_versionfile, "rb") as f:
+                    original = f.read()
                 print("UPDATING %s" % target_versionfile)
-                write_to_version_file(target_versionfile, versions)
-
-                _py2exe.run(self)
-                os.unlink(target_versionfile)
-                with open(cfg.versionfile_source, "w") as f:
-                    LONG = LONG_VERSION_PY[cfg.VCS]
-                    f.write(LONG %
-                            {"DOLLAR": "$",
-                             "STYLE": cfg.style,
-                             "TAG_PREFIX": cfg.tag_prefix,
-                             "PARENTDIR_PREFIX": cfg.parentdir_prefix,
-                             "VERSIONFILE_SOURCE": cfg.versionfile_source,
-                             })
+                try:
+                    write_to_version_file(target_versionfile, versions)
+                    _py2exe.run(self)
+                finally:
+                    if os.path.exists(target_versionfile):
+                        os.unlink(target_versionfile)
+                    with open(target_versionfile, "wb") as f:
+                        f.write(original)
         cmds["py2exe"] = cmd_py2exe
 
     # we override different "sdist" commands for both environments
-- 
2.43.0

