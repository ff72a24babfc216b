From a1ceb43c338c82c0adb318d3b09fc234cb1d975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 01/80] fix: entering the same path object again as a context
 lost the directory to return to

---
 augpathlib/caches.py |  5 +++--
 augpathlib/core.py   | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..b6639e0 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,11 +37,12 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
+            entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
             self.chdir()
+            self._push_entered_from(entered_from)
             return self
         else:
-            super().__enter__(self)
+            super().__enter__()
 
     @classmethod
     def setup(cls, local_class, remote_class_factory):
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..084aead 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -732,16 +732,27 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
+            entered_from = self.cwd()
             self.chdir()
+            self._push_entered_from(entered_from)
             return self
         else:
             super().__enter__()
+            self._push_entered_from(None)
+
+    def _push_entered_from(self, path):
+        # the same object can be entered again before it is exited
+        if not hasattr(self, '_entered_from'):
+            self._entered_from = []
+
+        self._entered_from.append(path)
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        entered_from = (self._entered_from.pop()
+                        if getattr(self, '_entered_from', None) else None)
+        if entered_from is not None:
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            entered_from.chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 6e827164dfd238c017311d202f68fa32dda6b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 02/80] fix: rmtree refusals could be avoided by respelling the
 path or from below it

Without DANGERZONE a directory that contains the working directory was
emptied up to it, and top level and home directories could be removed by
way of .. or a link.
---
 augpathlib/core.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 084aead..c9e5d06 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -654,14 +654,27 @@ class AugmentedPath(pathlib.Path):
         if not self.is_absolute():
             raise exc.WillNotRemovePathError(f'Only absolute paths can be removed recursively. {self}')
 
+        if '..' in self.parts:
+            # what .. refers to is only known by following the links before it
+            # and what comes before it might be gone before we are done
+            parent, name = (self, '') if self.name == '..' else (self.parent, self.name)
+            real = self.__class__(os.path.join(os.path.realpath(parent), name))
+            return real.rmtree(ignore_errors=ignore_errors,
+                               onerror=onerror,
+                               DANGERZONE=DANGERZONE)
+
         if not (DANGERZONE is True):  # prevent python type coersion
             # TODO test in a chroot
-            lenparts = len(self.parts)
-            if lenparts <= 2:
-                raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
-            elif lenparts <= 3 and 'home' in self.parts:
-                raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
-            elif self == pathlib.Path.cwd():
+            # self itself is not followed, but the path to it might be indirect
+            real = pathlib.Path(os.path.realpath(self.parent), self.name)
+            cwd = pathlib.Path.cwd()
+            for parts in (self.parts, real.parts):
+                if len(parts) <= 2:
+                    raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
+                elif len(parts) <= 3 and 'home' in parts:
+                    raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
+
+            if real == cwd or real in cwd.parents:
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
         try:
-- 
2.43.0


From 984125036ba218d2dd9d087d379e9d8956864166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 03/80] fix: rmtree with onerror failed with UnboundLocalError
 when given a link to a directory

---
 augpathlib/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index c9e5d06..148356e 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -677,6 +677,7 @@ class AugmentedPath(pathlib.Path):
             if real == cwd or real in cwd.parents:
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self  # so that onerror always has something to refer to
         try:
             if self.is_dir():
                 if self.is_symlink():
-- 
2.43.0


From ddd9e2d34d17abd6bf81f17e51bf6d5a73dc03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 04/80] fix: getxattr on a missing path raised AttributeError
 on linux

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 148356e..d385e87 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,8 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            # ENOATTR only exists on systems where it is not the same as ENODATA
+            if e.errno in (errno.ENODATA, getattr(errno, 'ENOATTR', errno.ENODATA)):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 6342023dc06c9e3fdf8a5aacf840b5d66426abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 05/80] fix: is_sparse ignored the mark of folders above a
 relative path

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d385e87..070092c 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -970,11 +970,15 @@ class EatPath(EatHelper, AugmentedPath):
         if hasattr(self, 'local'):
             # cache case
             l = self.local
-            parent = l.parent
         else:
-            parent = self.parent
             l = self
 
+        if not l.is_absolute() or '..' in l.parts:
+            # the parents of such a path are not the folders that contain it
+            head, tail = (l, '') if l.name in ('', '..') else (l.parent, l.name)
+            l = l.__class__(os.path.join(os.path.realpath(head), tail))
+
+        parent = l.parent
         if l != parent:
             try:
                 return self.getxattr(self._sparse_key) == b'1'
-- 
2.43.0


From 54b7e403e7a423b419ba3dd04d934788c6c0b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 06/80] fix: is_sparse of caches that mark folders with a file
 failed or was always true

---
 augpathlib/caches.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b6639e0..c442d4d 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import pathlib
 import warnings
@@ -375,14 +376,18 @@ class _CachePath(AugmentedPath):
                 delattr(self, '_is_sparse_root')
 
     def _sparse_root(self):  # TODO consider SparseHelper
-        return self != self.parent and (self / self._sparse_marker).exists()
+        local = pathlib.Path(os.path.abspath(self.local))
+        for path in (local, *local.parents):
+            if (path / self._sparse_marker).exists():
+                return path
 
     def is_sparse(self):
         return self._sparse_root() is not None
 
     def _clear_sparse(self):
         mark = self.local / self._sparse_marker
-        mark.unlink()
+        if mark.exists():
+            mark.unlink()
 
     def _mark_sparse(self):
         """ default implementation for marking folders as sparse
-- 
2.43.0


From d29ccc04df2562b4d2d18f10b26eeb275a5efdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 07/80] fix: swap failed for relative paths and unreadable
 files and hid the reason for failures

---
 augpathlib/swap.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..91f4f2c 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -15,7 +15,8 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
-    libc = ctypes.CDLL(None)
+    AT_FDCWD = -100                # relative paths are relative to the cwd
+    libc = ctypes.CDLL(None, use_errno=True)
     rnat2_syscall = libc.syscall
     rnat2_syscall.restypes = ctypes.c_int       # returns an int
     rnat2_syscall.argtypes = (ctypes.c_int,     # syscall number
@@ -27,15 +28,13 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
-            raise OSError(value, 'renameat2 failed', self, None, target)
+            err = ctypes.get_errno()
+            raise OSError(err, f'renameat2 failed: {os.strerror(err)}',
+                          os.fspath(self), None, os.fspath(target))
-- 
2.43.0


From a1a17c7f6ae4b23908c0c5eae1b2dabd3e300b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 08/80] fix: swap_carefree lost the target and left a temporary
 folder behind when it could not swap

---
 augpathlib/core.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 070092c..674b342 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -545,17 +545,31 @@ class AugmentedPath(pathlib.Path):
             maybe-atomic is too optimistic, thus carefree seems
             appropriately ... disinterested in the exact semantics """
         try:
-            self.swap(target)
-        except (Exception, NotImplementedError) as e:  # TODO clearer error handling
-            temp_str = tempfile.mkdtemp(dir=target.parent)
-            temp_dir = pathlib.Path(temp_str)
-            temp = temp_dir / target.name
-            # rename target -> temp
-            # rename self -> target
-            # rename target -> self
+            return self.swap(target)
+        except Exception as e:  # TODO clearer error handling
+            if not (self.exists() and target.exists()):
+                raise e  # there is nothing to swap
+
+        temp_str = tempfile.mkdtemp(dir=target.parent)
+        temp_dir = pathlib.Path(temp_str)
+        temp = temp_dir / target.name
+        # rename target -> temp
+        # rename self -> target
+        # rename target -> self
+        # if one of them fails go back the way we came
+        try:
             target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
+            try:
+                self.rename(target)
+                try:
+                    temp.rename(self)
+                except Exception:
+                    target.rename(self)
+                    raise
+            except Exception:
+                temp.rename(target)
+                raise
+        finally:
             temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
@@ -580,8 +594,8 @@ class AugmentedPath(pathlib.Path):
             msg = f'Both self and target must exist target does not! {target}'
             raise FileNotFoundError(msg)
 
-        sd = self.stat().st_dev
-        td = target.stat().st_dev
+        sd = self.lstat().st_dev  # the links are what is swapped
+        td = target.lstat().st_dev
         if sd != td:
             msg = f'Self and target must be on the same device! {sd} != {td}'
             raise ValueError(msg) # FIXME find or make the correct error type
-- 
2.43.0


From c0fbaa32eddb8b480569e4e8f67ef0b937d47fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 09/80] fix: writing data from a stream without any chunks
 failed instead of making an empty file

---
 augpathlib/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 674b342..ac56426 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1397,7 +1397,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1407,7 +1407,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1450,8 +1450,11 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, None)  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
+            if chunk1 is None:  # there was no data at all
+                return
+
             f.write(chunk1)
             yield chunk1
             for chunk in generator:
-- 
2.43.0


From 7b16280c0de83cd75046dd73473f542b9c64bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 10/80] fix: LocalPath.copy_to with force onto the same file
 truncated the source

---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ac56426..22d881f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1468,6 +1468,10 @@ class LocalPath(EatPath, AugmentedPath):
             target = self.__class__(target)
 
         if not target.exists() and not target.is_symlink() or force:
+            if target.exists() and self.exists() and target.samefile(self):
+                # opening the target for writing would truncate the source
+                raise shutil.SameFileError(f'{self} and {target} are the same file')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From 1341b3d8ce8ec782d6aed7bfafc6ec105d46cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 11/80] fix: indexing PathMeta always gave None and its keys
 lacked the timestamps

---
 augpathlib/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..956d0d0 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -140,12 +140,12 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
     def __iter__(self):
-        yield from (k for k in self.__dict__ if not k.startswith('_'))
+        yield from (k for k, v in self.items())
 
     def __reduce__(self):
         return (self.__class__, {k:v for k, v in self.items() if v is not None})
-- 
2.43.0


From c4ea30e624c021ceef3b69e7dfa535cee9046309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 12/80] fix: PathMeta could not be copied or pickled

---
 augpathlib/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 956d0d0..4a7786b 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -5,6 +5,7 @@ import pickle
 import struct
 import pathlib
 from datetime import datetime
+from functools import partial
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
 from augpathlib import exceptions as exc
@@ -148,7 +149,8 @@ class PathMeta:
         yield from (k for k, v in self.items())
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        return (partial(self.__class__, **kwargs), tuple())
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0


From 1a101a119b7ad936f1d646738ec6ec7d9336f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 13/80] fix: PathMeta with equal timestamps compared as
 different depending on how they were provided

---
 augpathlib/meta.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 4a7786b..6d02497 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -158,11 +158,9 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
-                  if value != getattr(other, field):
-                       return False
-             else:
-                  return True
+            # compare the fields, not how they are stored, timestamps that
+            # have yet to be parsed must match those that already are
+            return dict(self.items()) == dict(other.items())
 
     def __bool__(self):
         for k, v in self.__dict__.items():
-- 
2.43.0


From a39d5553d6116b738ce2220c252b956c7196e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 14/80] fix: placeholders in the first symlink format could not
 be read

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 6d02497..e142ccf 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -449,7 +449,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = 0 if version == 'meta' else int(version[3:])
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From 1c604ec98c7b7011c447107842878ff812c3a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 15/80] fix: metadata that the symlink format cannot represent
 was silently altered when written

---
 augpathlib/meta.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index e142ccf..67733a1 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -299,7 +299,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
     def encode(self, field, value):
         if field == 'file_id':
-            if not value:
+            if not value and value != 0:
                 if value is not None:
                     log.critical(f'{value!r} for file_id empty but not None!')
                 value = None
@@ -359,6 +359,11 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
+                if version >= 5:
+                    value = (value
+                             .replace(self.pathsep, '/')
+                             .replace(self.fieldsep_esc, self.fieldsep))
+
                 return value
 
         elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
@@ -378,11 +383,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return value
 
         else:
-            try:
-                return int(value)
-            except ValueError as e:
-                breakpoint()
-                raise e
+            return int(value)
 
         return value
 
@@ -414,10 +415,24 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
         path_string = id + f'/.{self.write_version}.' + self.fieldsep.join(gen)
         symlink_meta = pathlib.PurePosixPath(path_string)
+        self.check(pathmeta, symlink_meta)
         symlink = (symlink_meta if local_name is None else
                    pathlib.PurePosixPath(local_name) / symlink_meta)
         return symlink
 
+    def check(self, pathmeta, symlink_meta):
+        """ make sure that what was encoded decodes to what we started from """
+        fields = 'id', *self.versions[self.write_version]
+        try:
+            decoded = self.from_parts(symlink_meta.parts)
+            bad = [f for f in fields if getattr(decoded, f) != getattr(pathmeta, f)]
+        except (ValueError, IndexError) as e:
+            raise ValueError(f'cannot be stored in a symlink: {pathmeta}') from e
+
+        if bad:
+            msg = ', '.join(f'{f}: {getattr(pathmeta, f)!r}' for f in bad)
+            raise ValueError(f'cannot be stored in a symlink: {msg}')
+
     def from_symlink(self, symlink_path, match_name=True):
         """ contextual portion to make sure something weird isn't going on
             e.g. that a link got switched to point to another name somehow """
-- 
2.43.0


From 6b534d89e194d8e7cb061bfcf7bdeffab0c4c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 16/80] fix: a symlink whose name does not match dropped into
 the debugger

the check for case insensitive file systems probed the same lower case
path twice, so it was also taken on case sensitive file systems
---
 augpathlib/meta.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 67733a1..b54dca9 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -447,11 +447,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             local_name = None
 
         if match_name and symlink_path.name != local_name:
-            _l = symlink_path.as_posix().lower()
-            l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
-            if l.exists() and u.exists():
-                breakpoint()
+            _p = symlink_path.as_posix()
+            l = pathlib.Path(_p.lower()).parent
+            u = pathlib.Path(_p.upper()).parent
+            if l != u and l.exists() and u.exists():
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
                 raise FileNotFoundError(symlink_path)
-- 
2.43.0


From 627f055785b4613cc19717ab519b9da7ce480784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 17/80] fix: reading a range exactly as long as the chunk size
 failed or read too much

---
 augpathlib/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 22d881f..7e7a4fe 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1364,12 +1364,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.seek(start, 2 if start < 0 else 0)
                 if end is not None:
                     total = end - start
-                    if total < chunksize:
-                        nchunks = 0
-                        last_chunksize = total
-                    elif total > chunksize:
-                        nchunks, last_chunksize = divmod(total, chunksize)
-
+                    nchunks, last_chunksize = divmod(total, chunksize)
                     for _ in range(nchunks):  # FIXME boundscheck ...
                         yield f.read(chunksize)
 
-- 
2.43.0


From 9127a70887585870dc3039431954aa0cae4d6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 18/80] fix: updating an etag after taking an early digest gave
 the wrong parts

---
 augpathlib/utils.py | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..713746a 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -205,51 +205,34 @@ class etag:
         self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
         remainder, self._remainder = self._remainder, b''
         bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
             chunk = self._remainder
-            self._remainder = bio.read(chunksize)
+            self._remainder = bio.read(self.chunksize)
             if not self._remainder:
                 # the second time around at the end this will break the loop if the chunk
                 # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
+                if len(chunk) < self.chunksize:
                     self._remainder = chunk
                     return
 
             if chunk:
                 self._m.update(chunk)  # empty remainder doesn't advance the function
-                digest = self._m.digest()
+                self._parts.append(self._m.digest())
                 self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
 
     def digest(self):
+        parts = self._parts
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            # do not modify anything in case someone calls an early digest
+            parts = [*parts, self.cypher(self._remainder).digest()]
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 44aed0af14389e1c27aa92af8839cf69815cf91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 19/80] fix: checksum ignored a request for the default
 algorithm where the class uses another

validating a file against a blake2b checksum reported a mismatch
---
 augpathlib/core.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7e7a4fe..cdd4c63 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -833,22 +833,16 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
-            elif ((hasattr(self, '_cache_class') and
-                 hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
-                cypher = self._cache_class.cypher
-
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
-                cypher = self.cypher
+            if cypher is None:
+                cypher = (getattr(getattr(self, '_cache_class', None), 'cypher', None)
+                          or getattr(self, 'cypher', None)
+                          or default_cypher)
 
             m = cypher()
             extra = [c() for c in extra_cyphers]
-- 
2.43.0


From 4e5b27bb9697be1b16b5aeace577f0a4dcabc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 20/80] fix: validate_file failed to record a checksum mismatch
 because meta has no setter

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c442d4d..f30a82b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -621,7 +621,7 @@ class _CachePath(AugmentedPath):
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
                 nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From 76c7708232c44c52b06bf691b74ef250628f149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 21/80] fix: LocalPath.created was always None

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index cdd4c63..4a37e31 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1225,7 +1225,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
-- 
2.43.0


From b8fa0bf818670c9a500e83cff955729a9ba586ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 22/80] fix: requesting an etag with the metadata of a local
 path failed

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 4a37e31..6cd77b5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1323,7 +1323,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From 644e8bc3c71c0a6ddcc899e05e69f53f9bd22099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 23/80] fix: local metadata could be out of date or lack the
 checksum that was asked for

the result of an earlier request was returned when it had not included a
checksum or etag, and when a change happened within the granularity of
the timestamps of the file system
---
 augpathlib/core.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6cd77b5..b070cd9 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import time
 import errno
 import shutil
 import pathlib
@@ -1268,24 +1269,35 @@ class LocalPath(EatPath, AugmentedPath):
                 id=self.sysid + ':' + self.as_posix(),
                 name=self.name,)
 
+        now = time.time()
         try:
             st = self.stat()
         except OSError as e:
             st = self._stat()
 
         # FIXME nanos vs millis ??
-        change_tuple = (fs_metadata_changed_time,
-                        fs_data_modified_time) = (st.st_ctime,
-                                                  st.st_mtime)
+        fs_metadata_changed_time = st.st_ctime
+        fs_data_modified_time = st.st_mtime
+        change_tuple = tuple(
+            getattr(st, attr, None) for attr in
+            ('st_dev', 'st_ino', 'st_size', 'st_mode', 'st_uid', 'st_gid',
+             'st_ctime', 'st_ctime_ns', 'st_mtime', 'st_mtime_ns'))
 
         if hasattr(self, '_meta') and self._meta is not None:
-            if self.__change_tuple == change_tuple:
+            if (self.__change_tuple == change_tuple and
+                self.__change_settled and
+                # an earlier request may have asked for less
+                (not checksum or self._meta.checksum is not None) and
+                (not chunksize or self._meta.chunksize == chunksize)):
                 return self._meta
 
             old_meta = self._meta  # TODO log changes?
 
 
         self.__change_tuple = change_tuple  # TODO log or no?
+        # file system timestamps are coarse so if the last change is too recent
+        # then a further change might not be visible in the change tuple
+        self.__change_settled = now - fs_metadata_changed_time > 2
 
         # XXX interpretational note here, nearly all file systems do not have
         # a file birthdate that they track and the remote that we work against
-- 
2.43.0


From a4786e1460650f0ada0947b5e4f4be83a40d15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 24/80] fix: crumpling replaced what was already in the trash
 under the same name

---
 augpathlib/caches.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index f30a82b..f858626 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -150,6 +150,18 @@ class _CachePath(AugmentedPath):
     def _trashed_path_short(self):
         return self.trash / self.name  # FIXME SIGH
 
+    @staticmethod
+    def _trash_free(trashed):
+        """ the first variant of a path in the trash that will not
+            replace something else that has already been trashed """
+        candidate = trashed
+        count = 0
+        while os.path.lexists(candidate):
+            count += 1
+            candidate = trashed.parent / f'{trashed.name}.{count}'
+
+        return candidate
+
     def crumple(self):  # FIXME change name to something more obvious ...
         trashed = self._trashed_path
         tp = trashed.parent
@@ -159,12 +171,17 @@ class _CachePath(AugmentedPath):
             # need to catch that here and create them
             tp.mkdir(parents=True)
 
+        # NOTE os.rename replaces an existing file without any complaint
+        # so we have to make sure that the name is actually free
+        trashed = self._trash_free(trashed)
         try:
             self.rename(trashed)
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
-                log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                short = self._trash_free(self._trashed_path_short)
+                log.critical(f'Had to rename trash {trashed} -> {short}')
+                self.rename(short)
+                return short
             else:
                 raise e
 
-- 
2.43.0


From d1fecf2cac787f4e9e009b2776d639be6e205574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 25/80] fix: fields missing from new metadata survived in the
 xattrs

---
 augpathlib/caches.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index f858626..7b31c28 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -3,7 +3,7 @@ import sys
 import pathlib
 import warnings
 from augpathlib import exceptions as exc
-from augpathlib.meta import PathMeta
+from augpathlib.meta import PathMeta, _PathMetaAsXattrs
 from augpathlib.core import AugmentedPath, EatPath
 from augpathlib.utils import log, fs_safe_id
 from augpathlib.utils import default_cypher, cypher_lookup
@@ -1114,7 +1114,16 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            xattrs = pathmeta.as_xattrs(self.xattr_prefix)
+            # fields that the new metadata does not have must not
+            # survive from the metadata that was here before
+            prefix = self.xattr_prefix + '.' if self.xattr_prefix else ''
+            known = {(prefix + field).encode() for field in _PathMetaAsXattrs.fields}
+            stale = [key for key in self.xattrs() if key in known and key not in xattrs]
+            self.setxattrs(xattrs)
+            for key in stale:
+                self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
-- 
2.43.0


From 3fd2414d01e5c77fe8b2c16faf8f1aae555524da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 26/80] fix: comparing placeholder metadata when only one has
 an updated time

---
 augpathlib/caches.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7b31c28..c8789c1 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1233,8 +1233,8 @@ class SymlinkCache(_CachePath):
                     meta_newer = 'Meta newer. Not updating.'
                     pathmeta_newer = 'Other meta newer.'
                     msg = '{}'  # apparently I was out of my mind when I wrote this originally ...
-                    if meta.updated is None and pathmeta.updated is None:
-                        log.warning ('no change since either has an updated value (wat)')
+                    if meta.updated is None or pathmeta.updated is None:
+                        log.warning('no change since one has no updated value')
                         return #FIXME
 
                     if meta.updated > pathmeta.updated:
-- 
2.43.0


From e85af55260a634acacd8dc3e6e8b531bad741a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 27/80] fix: errors recorded for the old content were kept when
 the file changed

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c8789c1..0579843 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1417,7 +1417,7 @@ class PrimaryCache(CachePath):
                 if k == 'old_id':
                     continue
 
-                if vnew is None:
+                if vnew is None or hasattr(vnew, '__iter__') and not vnew:
                     log.debug(kwargs.pop(k))
 
         #old.updated == new.updated
-- 
2.43.0


From 47d9a99e9467afe69b9e39753a0e95d3c84aca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 28/80] fix: a failed fetch of a placeholder puts the
 placeholder back

---
 augpathlib/caches.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0579843..13299bf 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -915,17 +915,30 @@ class _CachePath(AugmentedPath):
         size_not_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb > size_limit_mb
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
-            if self.is_broken_symlink():
-                # FIXME touch a temporary file and set the meta first!
-                self.unlink()
-                self.touch()
-                self._meta_setter(meta)
-
-            # FIXME I'm 99% certain that our mysterious zero size files are happening here
-            # and the error is getting caught and silence somehow
-            log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
+            placeholder = os.readlink(self) if self.is_broken_symlink() else None
             existing_cache_cache = self.local_object_cache_path.exists()
-            self.local.data = self.data  # note that this should trigger storage to .ops/objects
+            try:
+                if placeholder is not None:
+                    # FIXME touch a temporary file and set the meta first!
+                    self.unlink()
+                    self.touch()
+                    self._meta_setter(meta)
+
+                # FIXME I'm 99% certain that our mysterious zero size files are happening here
+                # and the error is getting caught and silence somehow
+                log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
+                self.local.data = self.data  # note that this should trigger storage to .ops/objects
+            except BaseException as e:
+                if placeholder is not None:
+                    # never leave an empty or partial file behind that
+                    # looks as though the data had been fetched
+                    if os.path.lexists(self):
+                        self.unlink()
+
+                    os.symlink(placeholder, self)
+
+                raise e
+
             if self.local.size != meta.size:
                 m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
                 msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
-- 
2.43.0


From a76de11b6d367f0cc6c65b2181660b2eb2fd1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 29/80] fix: compare local content using the algorithm of the
 recorded checksum

---
 augpathlib/caches.py | 10 +++++++---
 augpathlib/core.py   |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 13299bf..7279295 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -606,11 +606,14 @@ class _CachePath(AugmentedPath):
     def _sparse_include(self):
         raise NotImplementedError('implement in subclass')
 
-    def _instance_cypher(self):
+    def _instance_cypher(self, meta=None):
         # FIXME sigh this is NOT a good solution at all but fixing it
         # requires a complete rework of all checksum and cypher
         # related functions and methods which is not happening now
-        cypher_name = self.meta.checksum_cypher
+        if meta is None:
+            meta = self.meta
+
+        cypher_name = meta.checksum_cypher
         if cypher_name is None:
             return self.cypher
         else:
@@ -1452,7 +1455,8 @@ class PrimaryCache(CachePath):
         if must_fetch:
             try:
                 # FIXME performance, and pathmeta.checksum is None case
-                if self.local.content_different() and self.local.meta.checksum != pathmeta.checksum:
+                if (self.local.content_different() and
+                    self.local.checksum(cypher=self._instance_cypher(pathmeta)) != pathmeta.checksum):
                     raise exc.LocalChangesError(f'not fetching {self}')
 
             except exc.NoRemoteFileWithThatIdError as e:
diff --git a/augpathlib/core.py b/augpathlib/core.py
index b070cd9..9a5bcb7 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1527,7 +1527,8 @@ class LocalPath(EatPath, AugmentedPath):
     def content_different(self):
         cmeta = self.cache.meta
         if cmeta.checksum:
-            return self.meta.content_different(cmeta)
+            # the recorded checksum might not use the cypher of the class
+            return self.checksum(cypher=self.cache._instance_cypher()) != cmeta.checksum
         else:
             # TODO use the index for this
             # but for now just pull down the remote file
-- 
2.43.0


From eaf11b1e09d332d0ee359f7ce3c870da4fe4dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 30/80] fix: EatPath always gives back the same class, moves
 check the type of the anchor

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 9a5bcb7..86e58a5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -969,8 +969,12 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # we need to cache these so that the types match
+                # NOTE do not look this up on the parent classes
+                if '_helped_class' not in cls.__dict__:
+                    cls._helped_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helped_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From 80de07160e8fc4c5daa19ba97f3ddc7880905d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 31/80] fix: moves do not overwrite what is recorded of another
 object, and report failures

---
 augpathlib/caches.py | 96 +++++++++++++++++++++++++++++---------------
 augpathlib/core.py   |  7 +++-
 2 files changed, 68 insertions(+), 35 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7279295..5159f31 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -979,62 +979,78 @@ class _CachePath(AugmentedPath):
             if not isinstance(self.anchor, self.__class__):
                 raise TypeError(f'mismatched anchor types {self!r} {self.anchor!r}')
 
-            target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
+            # do not update the metadata, there could already be
+            # something else at the location of the target
+            target = self.anchor.__truediv__(remote, update_meta=False)
 
-        if target.absolute() == self.absolute():
+        def entry(path):
+            # there are many ways to spell the same path
+            return os.path.join(os.path.realpath(path.parent), path.name)
+
+        if entry(target) == entry(self):
             log.warning(f'trying to move a file onto itself {self.absolute()}')
             return target
 
-        common = self.local.commonpath(target).absolute()
         target_parent = target.parent.absolute()
         parent = self.local.parent.absolute()
 
-        assert target.name != self.name or target_parent != parent
-
         if target_parent != parent:
             _id = remote.id if remote else meta.id
+            common = os.path.commonpath((parent, target_parent))
             log.warning('A parent of current file has changed location!\n'
-                        f'{common}\n{self.local.relative_to(common)}\n'
-                        f'{target.relative_to(common)}\n{_id}')
+                        f'{common}\n{self.absolute().relative_to(common)}\n'
+                        f'{target.absolute().relative_to(common)}\n{_id}')
+
+        occupied = os.path.lexists(target)
+        if occupied:
+            existing = self.local_class(entry(target)).cache
+            target_id = None if existing is None else existing.id
+        else:
+            target_id = remote.id if remote else meta.id
 
+        if target_id != self.id:
+            # this has to come before anything is written onto the target
+            if remote is not None:
+                remote._cache = self  # restore the mapping for remote -> self
+
+            if target.is_broken_symlink():
+                raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
+            else:
+                raise exc.PathExistsError(f'Target {target} already exists!')
 
         if not target_parent.exists():
             if remote is None:  # we have to have a remote to pull parent structure
                 remote = self._remote_class(meta)
 
-            target_parent.mkdir_cache(remote)
+            self.local_class(target_parent).mkdir_cache(remote, anchor=self.anchor)
 
         do_cast = not isinstance(target, self.__class__)
         if do_cast:
             target = self.__class__(target, meta=meta)
+        elif not occupied and self.is_broken_symlink():
+            target._meta_updater(self.meta if remote is None else remote.meta)
 
         if target.exists() or target.is_broken_symlink():
-            if target.id == self.id: #(remote.id if remote else meta.id):
-                if self.is_broken_symlink():
-                    # we may be a package with extra metadata that needs to
-                    # be merged with the target before we are unlinked
-                    file_is_different = target._meta_updater(self.meta)
-                    # FIXME ... if file is different then this causes staleness
-                    # and we need to fetch
-                    if file_is_different:
-                        log.critical('DO SOMETHING ABOUT THIS STALE DATA'
-                                     f'\n{target}\n{target.meta.as_pretty()}')
-
-                elif do_cast:
-                    # the target meta was just put there, if the ids match it should be ok
-                    # however since arbitrary meta can be passed in, best to double check
-                    file_is_different = target._meta_updater(self.meta)
-                    if file_is_different:
-                        log.critical('Something has gone wrong'
-                                     f'\n{target}\n{target.meta.as_pretty()}')
-                else:
-                    # directory moves that are resolved during pull
-                    log.warning(f'what is this!?\n{target}\n{self}')
-            elif target.is_broken_symlink():
-                remote._cache = self  # restore the mapping for remote -> self
-                raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
+            if self.is_broken_symlink():
+                # we may be a package with extra metadata that needs to
+                # be merged with the target before we are unlinked
+                file_is_different = target._meta_updater(self.meta)
+                # FIXME ... if file is different then this causes staleness
+                # and we need to fetch
+                if file_is_different:
+                    log.critical('DO SOMETHING ABOUT THIS STALE DATA'
+                                 f'\n{target}\n{target.meta.as_pretty()}')
+
+            elif do_cast:
+                # the target meta was just put there, if the ids match it should be ok
+                # however since arbitrary meta can be passed in, best to double check
+                file_is_different = target._meta_updater(self.meta)
+                if file_is_different:
+                    log.critical('Something has gone wrong'
+                                 f'\n{target}\n{target.meta.as_pretty()}')
             else:
-                raise exc.PathExistsError(f'Target {target} already exists!')
+                # directory moves that are resolved during pull
+                log.warning(f'what is this!?\n{target}\n{self}')
 
         if self.exists():
             safe_unlink = target.local.parent / f'.unlink-{target.name}'
@@ -1047,6 +1063,20 @@ class _CachePath(AugmentedPath):
                 log.exception(e)
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.rename(target)
+
+                if not occupied:
+                    # remove what was put there above
+                    if os.path.islink(target):
+                        target.unlink()
+                    elif target.is_dir():
+                        target.rmdir()
+
+                if not (occupied and self.is_dir() and target.is_dir()):
+                    if remote is not None:
+                        remote._cache = self
+
+                    raise e
+
             finally:
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.unlink()
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 86e58a5..469f8e2 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1104,7 +1104,7 @@ class LocalPath(EatPath, AugmentedPath):
 
         return cache
 
-    def mkdir_cache(self, remote):  # XXX hack around my idiocy / desire to not hit the network
+    def mkdir_cache(self, remote, anchor=None):  # XXX hack around my idiocy / desire to not hit the network
         """ wow side effects everywhere
             given a remote, create the local folder structure
             and attach the remote metadata as cache
@@ -1116,10 +1116,13 @@ class LocalPath(EatPath, AugmentedPath):
 
         cc = self._cache_class
         rc = cc._remote_class
+        if anchor is None:
+            anchor = cc.anchor  # XXX not available if anchor is a property
+
         for parent in reversed(tuple(remote.parents)):
             # remote as_path is always a PurePosixPath relative to the
             # anchor and does not include the anchor
-            local_path = cc.anchor.local / parent.as_path()
+            local_path = anchor.local / parent.as_path()
             if not local_path.exists():
                 local_path.mkdir()
                 rc(parent, cache=cc(local_path, remote=parent, meta=parent.meta))
-- 
2.43.0


From 505957ee0358263b68a9699fadcc45b0e70fab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 32/80] fix: remote paths are hashable, bootstrapping again
 needs that

---
 augpathlib/remotes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..1366a27 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -568,6 +568,10 @@ class RemotePath:
     def __ne__(self, other):
         return not self == other
 
+    def __hash__(self):
+        # has to be defined together with __eq__
+        return hash(self.id)
+
     def __repr__(self):
         return f'{self.__class__.__name__}({self.id!r})'
 
-- 
2.43.0


From 9bc5b215aeeaa546553c86eb6aed8173b470e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 33/80] fix: bootstrapping again terminates when there are
 local folders without a cache

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5159f31..0345ed3 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -508,7 +508,11 @@ class _CachePath(AugmentedPath):
                     ad = self.anchor.local / d
                     if ad.cache is None:
                         log.critical(f'would you fix the nullability already? {d}')
+                        # not ours, without this we never terminate
+                        local_dirs.discard(d)
+                        old_local = local_dirs - rd
                         continue
+
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
                     local_dirs = set(ld for ld in local_dirs
-- 
2.43.0


From 05eb27432f79fd54d91478ab2876dc1431a8c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 34/80] fix: bootstrapping again works for a relative path

---
 augpathlib/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0345ed3..8190f33 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -495,7 +495,9 @@ class _CachePath(AugmentedPath):
         file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
         # FIXME have to compute file_index here because for some reason
         # computing local_dirs will remove folders entirely !??
-        local_dirs = set(p.relative_to(self.anchor) for p in local_paths if p.is_dir())
+        # NOTE self might be spelled relative to the working directory
+        here = pathlib.PurePath(os.path.relpath(os.path.realpath(self), os.path.realpath(self.anchor)))
+        local_dirs = set(here / p.relative_to(self.local) for p in local_paths if p.is_dir())
         if local_dirs:
             rcs = list(rcs)  # sigh
             remote_dirs = set(c for c in rcs if c.is_dir())
-- 
2.43.0


From b5c83c73fd1691a93218a341acdaa86595c77187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 35/80] fix: honor only, skip and sparse for what is directly
 below the root

---
 augpathlib/caches.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 8190f33..66386ad 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -454,6 +454,7 @@ class _CachePath(AugmentedPath):
                 else:
                     # if you pass the only mask so do your children
                     log.info(f'Bootstrapping {meta.id} -> {self.local!r}')
+                    sparse = tuple()
 
                 only = tuple()
 
@@ -488,6 +489,11 @@ class _CachePath(AugmentedPath):
         # go back up to dataset level?
         #sname = lambda gen: sorted(gen, key=lambda c: c.name)  # c.name doesn't work for remotes
         #rcs = sname(self.remote._rchildren(create_cache=False, sparse=sparse))
+        if (only or skip or sparse) and self._meta_is_root(self.meta):
+            # everything that is directly below the root is selected on its own
+            yield from self._bootstrap_selected(only, skip, sparse)
+            return
+
         rcs = self.remote._rchildren(create_cache=False, sparse=sparse)
 
         local_paths = list(self.local.rchildren)
@@ -561,6 +567,23 @@ class _CachePath(AugmentedPath):
 
             yield cc
 
+    def _bootstrap_selected(self, only=tuple(), skip=tuple(), sparse=tuple()):
+        for child in self.remote.children:
+            if child.id in skip or only and child.id not in only:
+                # do not even create the cache in this case
+                log.info(f'Skipped       {child.id}')
+                continue
+
+            cc = child.cache
+            if cc is None:
+                cc = child.cache_init()
+
+            if child.is_dir():
+                yield from cc.bootstrap(child.meta, recursive=True,
+                                        only=only, skip=skip, sparse=sparse)
+            else:
+                yield cc
+
     def _bootstrap_prepare_filesystem(self, parents, fetch_data, size_limit_mb, sparse=False):
         # we could use bootstrapping id here and introspect the id, but that is cheating
         if self.remote.is_dir():
-- 
2.43.0


From bf9c5f0fc12590fd52acacd6b3024dda079178a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 36/80] fix: hide the internal data folder for every spelling
 of the root, and nothing else

---
 augpathlib/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 469f8e2..03f4089 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1503,13 +1503,14 @@ class LocalPath(EatPath, AugmentedPath):
                 # the anchor itself can be relative and have an anchor
                 # so we test to see if there is an anchor first
                 self.cache.anchor and
-                self == self.cache.anchor.local):
+                # there are many ways to spell the path of the anchor
+                os.path.realpath(self) == os.path.realpath(self.cache.anchor.local)):
                 cache_ignore = self._cache_class.cache_ignore
                 # implemented this way we can still use Path to navigate
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
@@ -1523,7 +1524,8 @@ class LocalPath(EatPath, AugmentedPath):
             # the anchor itself can be relative and have an anchor
             # so we test to see if there is an anchor first
             self.cache.anchor and
-            self == self.cache.anchor.local):
+            # there are many ways to spell the path of the anchor
+            os.path.realpath(self) == os.path.realpath(self.cache.anchor.local)):
             for path in self.children:
                 yield path
                 yield from path.rchildren
-- 
2.43.0


From 06c102f27c96d7d9cd5fff1861cf3715037e50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 37/80] fix: refresh without a size limit, and without metadata
 fails instead of stopping in a debugger

---
 augpathlib/caches.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 66386ad..61936ba 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -903,11 +903,8 @@ class _CachePath(AugmentedPath):
 
     def refresh(self, update_data=False, size_limit_mb=2, force=False):
         if self.meta is None:
-            breakpoint()
+            raise exc.NoCachedMetadataError(self.local)
 
-        limit = (size_limit_mb if
-                 not self.meta.size or (size_limit_mb > self.meta.size.mb)
-                 else self.meta.size.mb + 1)
         new = self.remote.refresh(update_cache=True,
                                   update_data=update_data,
                                   update_data_on_cache=(self.is_file() and self.exists()),
-- 
2.43.0


From b94339b6342f11e17fad82c73e2170ac3d029f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 38/80] fix: a refused anchoring leaves the anchor of the cache
 class as it was

---
 augpathlib/caches.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 61936ba..168cf6b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -82,9 +82,21 @@ class _CachePath(AugmentedPath):
         # which is OK for the path where local/remote binding has already
         # been completed
         if '_anchor' not in self.__class__.__dict__:
-            self.__class__._abstract_class()._anchor = self
+            acls = self.__class__._abstract_class()
+            previous = acls.__dict__.get('_anchor')
+            acls._anchor = self
+            try:
+                # this refuses if there is another anchor or the id does not match
+                self._remote_class.anchorToCache(self, init=remote_init)
+            except BaseException as e:
+                if previous is None:
+                    acls.weighAnchor()
+                else:
+                    acls._anchor = previous
+
+                raise e
+
             self.local_data_dir_init()  # call every time for insurance
-            self._remote_class.anchorToCache(self, init=remote_init)
 
         else:
             raise ValueError(f'{self.__class__} already anchored to {self.__class__._anchor}')
-- 
2.43.0


From 603963b552160f73cab3952801400a63fbddaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 39/80] fix: check the id of the folder when adopting an
 existing anchor

---
 augpathlib/remotes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 1366a27..92180b2 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -148,14 +148,12 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
+            return cls.anchorToCache(path.cache)  # checks the id
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+                return cls.anchorToCache(path.cache)
             else:
                 raise e
 
-- 
2.43.0


From d4fa68bc70f8b7a63bd838205036c9e8f326c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 40/80] fix: do not anchor to something that is not a folder

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 92180b2..fd922e9 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -180,6 +180,9 @@ class RemotePath:
                 else:
                     raise NotImplementedError(f'What\'s a {root}?!')
 
+            elif not path.is_dir():
+                raise NotADirectoryError(f'not a directory {path}')
+
             elif list(path.children):
                 raise exc.DirectoryNotEmptyError(f'has children {path}')
 
-- 
2.43.0


From 177b56dc53134280f44dbfeee2e6b140d028a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 41/80] fix: the anchor does not follow the working directory

---
 augpathlib/remotes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index fd922e9..eaab208 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -104,6 +104,7 @@ class RemotePath:
             # FIXME the non-existence problem rears its head again
             return cls.anchorToCache(path)
         elif isinstance(path, LocalPath):
+            path = path.absolute()
             # FIXME the non-existence problem rears its head again
             if path.cache:
                 return cls.anchorToCache(path.cache)
@@ -127,7 +128,8 @@ class RemotePath:
         if parent_path is None:
             parent_path = cls._local_class.cwd()
         else:
-            parent_path = cls._local_class(parent_path)
+            # absolute so that the anchor does not follow the working directory
+            parent_path = cls._local_class(parent_path).absolute()
 
         root = cls(cls.root)  # FIXME formalize the use of root
         path = parent_path / root.name
-- 
2.43.0


From 9a352815f71e5134bbf940e5fabb39e045476278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 42/80] fix: there is nothing at a path with a name that is too
 long

---
 augpathlib/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 03f4089..c90df93 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -74,9 +74,8 @@ if sys.version_info >= (3, 7):
             # dereferenced until the link name becomes too long
             _pathlib._IGNORED_ERROS += (errno.ENAMETOOLONG,)
     else:
-        _pathlib._IGNORED_ERRNOS += (ELOOP,)
-        if sys.platform == 'darwin':
-            _pathlib._IGNORED_ERRNOS += (errno.ENAMETOOLONG,)
+        # there can be nothing at a path with a name that is too long
+        _pathlib._IGNORED_ERRNOS += (ELOOP, errno.ENAMETOOLONG)
 else:
 
     def _is_dir(entry):
-- 
2.43.0


From af7baa9407bf6377e71a9fa8803c24788660d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 43/80] fix: find the cache root for relative paths and below
 broken links

---
 augpathlib/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index c90df93..d58db90 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1178,8 +1178,12 @@ class LocalPath(EatPath, AugmentedPath):
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        # absolute first, the parents of a relative path stop short of the root
+        for variant in (self.absolute(), self.__class__(os.path.realpath(self))):
             for parent in chain((variant,), variant.parents):
+                if parent.is_broken_symlink():
+                    continue  # not a folder, and not everyone's links are ours
+
                 try:
                     if parent.cache:
                         found_cache = parent
-- 
2.43.0


From bb0b4ec038bda2a97ac545550f648fd3ac9b1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 44/80] fix: do not follow links when listing all descendants
 of a cache root

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d58db90..5556d8c 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1531,7 +1531,8 @@ class LocalPath(EatPath, AugmentedPath):
             os.path.realpath(self) == os.path.realpath(self.cache.anchor.local)):
             for path in self.children:
                 yield path
-                yield from path.rchildren
+                if not path.is_symlink():  # like rglob
+                    yield from path.rchildren
 
         else:
             yield from self.rglob('*')
-- 
2.43.0


From 113e0219fcff14a463166a3561a087b6b8482bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 45/80] fix: a pre or dev release of a new release starts
 counting from zero

---
 augpathlib/package.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..0472819 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -142,7 +142,8 @@ def next_version(ver, next_phase='current', rel_comp='release'):
     if isinstance(next, tuple):
         dowhatnow, next = next
         cons_next(d, ver, dowhatnow)
-        cons_next(d, ver, next)
+        # a new release starts counting from zero
+        cons_next(d, ver.__class__('0'), next)
     else:
         cons_next(d, ver, next)
 
-- 
2.43.0


From 6892532157fbf6a6f2be038564848716452c6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 46/80] fix: the last of two members with one name is the one
 that counts, and an empty archive has a root

---
 augpathlib/zip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..a8840da 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -21,8 +21,10 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
                     (ZipInternalPath,),
                     dict(zip_file=zipfile.ZipFile(zip_path)))
         zipath._bind_flavours()
-        paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
+        # a name can have been added more than once, the last one counts
+        paths = set(zipath(info=zi) for zi in zipath.zip_file.NameToInfo.values())
         parents = set(parent for path in paths for parent in path.parents)
+        parents.add(zipath('.'))  # even if there is nothing in it
         zipath._paths = {p:p for p in parents | paths}
         return zipath
 
-- 
2.43.0


From b78161ee1653527dddbac9f228957a5541237467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 47/80] fix: a path which is not in the archive is no folder
 and cannot be opened

---
 augpathlib/zip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a8840da..5ba0dff 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -75,7 +75,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -85,7 +85,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(self)
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
-- 
2.43.0


From c645d0a5550c4d189a97b3da04c89e250e555d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 48/80] fix: the data of an empty member or of a folder in an
 archive

---
 augpathlib/zip.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 5ba0dff..d314ec0 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -105,16 +105,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
-
-                    yield data
-        finally:
-            self.close()
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
 
 ZipInternalPath._bind_flavours()
-- 
2.43.0


From 50aa24b835f570d9a987d95747df3bee4741fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 49/80] fix: paths into an archive follow what is there now,
 and paths outside of archives can be asked

---
 augpathlib/zip.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index d314ec0..47653a2 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -122,17 +122,37 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+
+        return self.zip_relative_path.exists()
+
+    def is_dir(self):
+        # the archive itself is a file
+        if self.zip_path is None or self.zip_path == self:
+            return super().is_dir()
+
+        return self.zip_relative_path.is_dir()
+
+    def is_file(self):
+        if self.zip_path is None or self.zip_path == self:
+            return super().is_file()
+
+        return self.zip_relative_path.exists() and not self.zip_relative_path.is_dir()
 
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
-            zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+        if zp is None:
+            return
+
+        # the same path can lead to another archive later
+        st = zp.stat()
+        key = st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns
+        if zp not in self._zfc_cache or self._zfc_cache[zp][0] != key:
+            self._zfc_cache[zp] = key, ZipInternalPath._new(zp)
 
-        return self._zfc_cache.get(zp, None)
+        return self._zfc_cache[zp][1]
 
     @property
     def zip_relative_path(self):
@@ -159,7 +179,7 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if pzp is None and zipfile.is_zipfile(self):
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
@@ -174,7 +194,7 @@ class ZipHelper:
             for child in self.zip_relative_path.rchildren:
                 yield self.zip_path / child
         else:
-            yield from super().rchildren
+            yield from self.rglob('*')
 
     def open(self, *args, **kwargs):
         if self.zip_path is not None:
-- 
2.43.0


From 6354c24975442fa2c36824840d85025463cde5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 50/80] fix: the repository of relative, ~ and .. spellings and
 of repositories that were replaced

---
 augpathlib/repo.py | 54 ++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..1db7a6c 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,3 +1,4 @@
+import os
 import pathlib
 from urllib.parse import urlparse
 from augpathlib import AugmentedPath
@@ -10,6 +11,7 @@ log = _log.getChild('repo')
 class RepoHelper:
     _repo_class = None  # set in _setup
     _repos = {}  # repo cache
+    _idents = {}  # what was on disk when the repo was cached
 
     def __new__(cls, *args, **kwargs):
         return super().__new__(cls, *args, **kwargs)
@@ -92,54 +94,68 @@ class RepoHelper:
         else:
             repo = self._repo_class.init(self)
 
-        self._repos[self] = repo
+        wd = self.working_dir
+        self._repos[wd] = repo
+        self._idents[wd] = wd._repo_ident()
         return repo
 
+    def _repo_ident(self):
+        """ changes when a repository is replaced by another one, the
+            cached repo keeps processes and files of the old one open """
+        git = self / '.git'
+        head = git / 'HEAD'
+        st = os.stat(head if os.path.exists(head) else git)
+        return st.st_dev, st.st_ino, st.st_ctime_ns
+
     @property
     def repo(self):
         wd = self.working_dir
-        if wd in self._repos:
-            return self._repos[wd]
-        elif wd is not None:
+        if wd is not None:
+            ident = wd._repo_ident()
+            if wd in self._repos and self._idents.get(wd) == ident:
+                return self._repos[wd]
+
             repo = self._repo_class(wd.as_posix())
             self._repos[wd] = repo
+            self._idents[wd] = ident
             return repo
         else:
             raise exc.NotInRepoError(f'{self} is not in a git repository')
 
+    def _absolute(self):
+        path = self if self.is_absolute() else self.expanduser().absolute()
+        if '..' in path.parts:
+            # the parents of such a path are not the folders that contain it
+            head, tail = (path, '') if path.name == '..' else (path.parent, path.name)
+            path = self.__class__(os.path.join(os.path.realpath(head), tail))
+
+        return path
+
     @property
     def working_dir(self):
         # TODO match git behavior here
         # https://github.com/git/git/blob/master/setup.c#L903
         # https://github.com/git/git/blob/08da6496b61341ec45eac36afcc8f94242763468/setup.c#L584
         # https://github.com/git/git/blob/bc12974a897308fd3254cf0cc90319078fe45eea/setup.c#L300
+        if not self.is_absolute() or '..' in self.parts:
+            # avoid cases where RepoPath('.') gets put in the repos cache
+            return self._absolute().working_dir
+
         if (self / '.git').exists():
-            if not self.is_absolute():
-                # avoid cases where RepoPath('.') gets put in the repos cache
-                return self.expanduser().absolute()
-            else:
-                return self
+            return self
 
         elif str(self) == self.anchor:  # anchor is portable
             return None
 
         else:
-            if not self.is_absolute():
-                return self.expanduser().absolute().parent.working_dir
-            else:
-                return self.parent.working_dir
+            return self.parent.working_dir
 
     @property
     def repo_relative_path(self):
         """ working directory relative path """
         repo = self.repo
         if repo is not None:
-            if not self.is_absolute():
-                path = self.expanduser().absolute()
-            else:
-                path = self
-
-            return path.relative_to(repo.working_dir)
+            return self._absolute().relative_to(repo.working_dir)
 
     path_relative_repo = repo_relative_path
 
-- 
2.43.0


From f574e4f87ebac72248e1094a371537929f8b0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 51/80] fix: committing one path takes what is staged for it
 and leaves everything else alone

---
 augpathlib/repo.py | 60 ++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 1db7a6c..d87694e 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -306,45 +306,27 @@ class RepoHelper:
         """ commit from index
             git commit -m {message} --date {date} -- {self}
         """
-        # TODO
-        # use a modified Index.write_tree create an in memory tree
-        # filtering out changed files that are not the current file
-        # during the call to mdb.stream_copy, though it seems like
-        # the internal call to write_tree_from_cache may be writing
-        # all changes and calculating the sha from that so it may
-        # make more sense to try to filter entries instead ...
-        # but that means a blob may still be sitting there and
-        # get incorporated? I may have to use the full list of entries
-        # but sneekily swap out the entries for other changed files for
-        # the unmodified entry for their object, will need to experiment
-
-
-        if self.repo.active_branch.is_valid(): # handle the empty repo case
-            # HAH take that complexity!
-            _mes = self.repo.git.stash('push')
-            try:
-                # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
-
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
-            finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
-        else:
-            try:
-                self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
+        # start from what is in HEAD, take the entries of this path
+        # from the index and leave the index itself as it is
+        repo = self.repo
+        path = self.repo_relative_path.as_posix()
+
+        def this(other):
+            return path == '.' or other == path or other.startswith(path + '/')
+
+        staged = {k: e for k, e in repo.index.entries.items() if this(k[0])}
+        if repo.head.is_valid():
+            index = self._git.IndexFile.new(repo, repo.head.commit.tree.hexsha)
+            # a folder can be staged in the place of a file
+            replaced = [p.as_posix() for k in staged for p in pathlib.PurePosixPath(k[0]).parents]
+            entries = {k: e for k, e in index.entries.items()
+                       if not this(k[0]) and k[0] not in replaced}
+        else:  # handle the empty repo case
+            index = self._git.IndexFile(repo)
+            entries = {}
+
+        index.entries = {**entries, **staged}
+        return index.commit(message=message, author_date=date)
 
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
-- 
2.43.0


From 326b5363cfdcd26edbbdf6ffb77f5118afc6a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 52/80] fix: the version shown has the exact bytes, or there is
 none

---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index d87694e..02d784b 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -345,8 +345,9 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            return self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(), '--',
+                                      stdout_as_string=False,
+                                      strip_newline_in_stdout=False)
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From b70007865304a9cde6ceeb7d72ed532823c60092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 53/80] fix: what is in the index can be compared with HEAD,
 and no path is taken for a pattern

---
 augpathlib/repo.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 02d784b..0224ebf 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -219,7 +219,7 @@ class RepoHelper:
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=':(literal)' + self.expanduser().resolve().as_posix(),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -227,7 +227,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=':(literal)' + self.expanduser().resolve().as_posix(),
             # TODO --follow
             max_count=max_count)
 
@@ -253,7 +253,10 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        if isinstance(other, self._git.IndexFile):
+            other = this.Index  # how GitPython spells against the index
+
+        list_ = this.diff(other=other, paths=self._pathspec(), create_patch=create_patch)
         if list_:
             return list_[0]
 
@@ -293,14 +296,15 @@ class RepoHelper:
 
     # commit this file
 
+    def _pathspec(self):
+        """ this path and what is in it, even if it reads like a pattern """
+        path = self.repo_relative_path.as_posix()
+        return ':(top)' if path == '.' else ':(top,literal)' + path
+
     def add_index(self):
         """ git add -- {self} """
-        # FIXME workaround for broken GitPython behavior on windows
-        # C:\\Users\\tom\\git\\repo-name != C:/Users/tom/git/repo-name
-        # because they are testing with strings
-        # so we use repo_relative_path to avoid the broken
-        # _to_relative_path in GitPython
-        self.repo.index.add([self.repo_relative_path.as_posix()])
+        # NOTE Index.add in GitPython takes the path for a pattern
+        self.repo.git.add('--force', '--', self._pathspec())
 
     def commit(self, message, *, date=None):
         """ commit from index
-- 
2.43.0


From 3f9cf1cfd096bb27899a6bf95929e68a031b58cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 54/80] fix: leaving a ref that was visited restores
 everything, in the face of other stashes, tags and failures

---
 augpathlib/repo_patch.py | 93 +++++++++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..4347016 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,7 @@
+import os
+from uuid import uuid4
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
@@ -46,6 +49,58 @@ git.Repo.getRef = _Repo.getRef
 git.Repo.currentRefName = _Repo.currentRefName
 
 
+def _visit(repo, ref):
+    if isinstance(ref, git.Reference) and (not isinstance(ref, git.Head) or
+                                           isinstance(ref, git.RemoteReference)):
+        ref = ref.path  # there might be a branch with the same name
+
+    repo.git.checkout(str(ref), '--')
+
+
+def _push(repo):
+    """ stash everything, returns the message of the stash or
+        None if there was nothing, and the files that were deleted
+        because git stash forgets that if they are new in the index """
+    message = f'visit {uuid4()}'
+    deleted = [f for f in repo.git.ls_files('--deleted', '-z').split('\0') if f]
+    repo.git.stash('push', '--all', '--message', message)
+    return message if _stash_name(repo, message) is not None else None, deleted
+
+
+def _stash_name(repo, message):
+    # other stashes might have been pushed on top
+    for i, subject in enumerate(repo.git.stash('list', '--format=%gs').splitlines()):
+        if subject.endswith(message):
+            return 'stash@{%s}' % i
+
+
+def _pop(repo, message, deleted):
+    if message is None:
+        return
+
+    name = _stash_name(repo, message)
+    stash = repo.commit(repo.git.rev_parse(name))
+    base, index, *untracked = stash.parents
+    if repo.head.commit != base:
+        # the branch has moved, so there is something to merge
+        repo.git.stash('pop', name)
+        return
+
+    # git stash pop fails if a file is removed from the index and still there
+    repo.git.read_tree('-u', '--reset', stash.hexsha)
+    for commit in untracked:
+        if len(commit.tree):
+            repo.git.checkout(commit.hexsha, '--', ':/')
+
+    repo.git.read_tree('--reset', index.hexsha)
+    for file in deleted:
+        path = os.path.join(repo.working_dir, file)
+        if os.path.lexists(path):
+            os.unlink(path)
+
+    repo.git.stash('drop', name)
+
+
 class _Reference(git.Reference):
     """ monkey patching """
     def __enter__(self):
@@ -59,32 +114,28 @@ class _Reference(git.Reference):
         if not self.is_valid():
             raise exc.InvalidRefError(f'Not a valid ref: {self.name}')
 
-        self.__original_branch = self.repo.active_branch
-        self.__stash = self.repo.git.stash('--all')  # always stash
-        if self.__stash == 'No local changes to save':
-            self.__stash = None
+        repo = self.repo
+        original = repo.head.commit.hexsha if repo.head.is_detached else repo.active_branch
+        stash = _push(repo)  # always stash
+        try:
+            if self != original:
+                _visit(repo, self)
+        except BaseException:
+            _pop(repo, *stash)
+            raise
 
-        if self == self.__original_branch:
-            return self
+        if not hasattr(repo, '_visits'):
+            repo._visits = []
 
-        self.checkout()
+        repo._visits.append((original, stash))
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-        _stash = self.repo.git.stash('--all')  # always stash on the way out as well
-        if _stash == 'No local changes to save':
-            stash = 'stash@{0}'
-        else:
-            stash = "stash@{1}"
-
-        if self.__original_branch != self:
-            self.__original_branch.checkout()
-
-        # TODO check to make sure no other stashes were pushed on top
-        if self.__stash is not None:
-            self.repo.git.stash('pop', stash)
-
-        self.__stash = None
+        repo = self.repo
+        original, stash = repo._visits.pop()
+        _push(repo)  # always stash on the way out as well
+        _visit(repo, original)
+        _pop(repo, *stash)
 
 
 # monkey patch git.Reference
-- 
2.43.0


From b937c72e538d1e6a47bcfce21400b539d0f435a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 55/80] fix: parse stat output for any name and for times
 before the epoch

---
 augpathlib/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 713746a..78800c1 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -165,35 +165,36 @@ class StatResult:
     # so probably better to check for gstat first  # also -f instead of -c
 
     def __init__(self, out):
-        out = out.decode()
+        out = out.decode(errors='surrogateescape')
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # the name may contain anything
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
 
         self.name = name
 
-        def ns(hr):
+        def timestamp(seconds, hr):
             date, time, zone = hr.split(' ')
             time, ns = time.split('.')
-            return '.' + ns
+            # seconds are rounded down so the fraction always counts forward
+            return (int(seconds) * 10 ** 9 + int(ns)) / 10 ** 9
 
         self.st_ino = int(ino)
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        self.st_atime = timestamp(access, ha)
+        self.st_mtime = timestamp(modified, hm)
+        self.st_ctime = timestamp(changed, hc)
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
 
         if hb != '-' and birth != '0':
-            self.st_birthtime = float(birth + ns(hb))
+            self.st_birthtime = timestamp(birth, hb)
 
 
 class etag:
-- 
2.43.0


From 6868194c6a318b03d09f6acd6237749688705c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 56/80] fix: joined and relative ssh paths lead to the path
 they name

---
 augpathlib/remotes.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index eaab208..f106bfc 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -647,6 +647,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
             _args = args
             _, *args = (*args[0].split(':', 1), *args[1:])
 
+        if sys.version_info >= (3, 12):
+            args = cls._rooted(*args),
+
         _self = pathlib.PurePath.__new__(cls, *args)  # no kwargs since the only kwargs are for init
         _self.remote_platform = _self._remote_platform
 
@@ -714,7 +717,19 @@ class SshRemote(RemotePath, pathlib.PurePath):
         cls._bind_sysid()
         return anchor
 
+    @classmethod
+    def _rooted(cls, *segments):
+        """ as of 3.12 the segments are stored unjoined, so join them up
+            front, as always relative paths are relative to the anchor """
+        _, anchor_path = cls.root.split(':', 1)
+        return pathlib.PurePosixPath(
+            anchor_path,
+            *[s.rpath if isinstance(s, SshRemote) else s for s in segments]).as_posix()
+
     def __init__(self, thing_with_id, *args, cache=None):
+        if sys.version_info >= (3, 12):
+            thing_with_id, args = self.rpath, ()  # see __new__
+
         if isinstance(thing_with_id, pathlib.PurePath):
             thing_with_id = thing_with_id.as_posix()
 
@@ -772,20 +787,13 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if sys.version_info < (3, 12):
             pass
         else:
-            # FIXME HACK
-            if self.root == self.anchor.root and self._raw_paths == self.anchor._raw_paths:
-                # XXX already at the anchor
-                host, path = self.root.split(':', 1)
-                return path
-
-        host_path = (self.anchor / self).as_posix()
-        if sys.version_info < (3, 12):
-            # < 3.12 uses _parts which includes '/' explicitly
-            return host_path
-        else:
-            host, path = host_path.split(':', 1)
+            # already joined with the anchor, see __new__
+            path, = self._raw_paths
             return path
 
+        # < 3.12 uses _parts which includes '/' explicitly
+        return (self.anchor / self).as_posix()
+
     if sys.version_info < (3, 12):
         def _parts_relative_to(self, remote, *args, cache_parent=None):
             if args:
@@ -809,7 +817,6 @@ class SshRemote(RemotePath, pathlib.PurePath):
                         .relative_to(pathlib.PurePath(remote.rpath))
                         .parts)
             except Exception as e:
-                breakpoint()
                 raise e
 
     def refresh(self):
-- 
2.43.0


From 7fe1736cf658f1153ad4ede983f2669b1875d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 57/80] fix: the output of an ssh command is all of its output
 and only that

---
 augpathlib/remotes.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index f106bfc..1ad6255 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,8 @@
 import os
 import sys
+import stat
+import errno
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -696,7 +699,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
             session = pxssh.pxssh(options=dict(IdentityAgent=os.environ.get('SSH_AUTH_SOCK')))
             session.login(host, ssh_config=LocalPath('~/.ssh/config').expanduser().as_posix())
             cls._rows = 200
-            cls._cols = 200
+            cls._cols = 10000
             session.setwinsize(cls._rows, cls._cols)  # prevent linewraps of long commands
             session.prompt()
             atexit.register(lambda:(session.sendeof(), session.close()))
@@ -869,7 +872,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
             yield data
 
-        p.communicate()
+        _, err = p.communicate()
+        if p.returncode != 0:
+            raise self._error(err)
 
     # reuse meta from local
     # def meta (make it easier to search for this)
@@ -879,12 +884,19 @@ class SshRemote(RemotePath, pathlib.PurePath):
     @classmethod
     def _ssh(cls, remote_cmd):
         #print(remote_cmd)
+        remote_cmd = os.fsencode(remote_cmd)
         if len(remote_cmd) > cls._cols:
             raise exc.CommandTooLongError
-        n_bytes = cls.session.sendline(remote_cmd)
-        cls.session.prompt()
+        cls.session.sendline(remote_cmd)
+        # however long it takes, output that shows up late would
+        # be mistaken for the output of the next command
+        cls.session.prompt(timeout=None)
         raw = cls.session.before
-        out = raw[n_bytes + 1:].strip()  # strip once here since we always will
+        # the first line is the echo of the command, its length may
+        # differ from what was sent, so it is not used to find the end
+        _, _, out = raw.partition(b'\r\n')
+        if out.endswith(b'\r\n'):
+            out = out[:-2]  # names may start or end with whitespace so no strip
         #print(raw)
         #print(out)
         return out
@@ -894,6 +906,16 @@ class SshRemote(RemotePath, pathlib.PurePath):
         remote_cmd = "uname -a | awk '{ print tolower($1) }'"
         return self._ssh(remote_cmd).decode(self.encoding)
 
+    def _error(self, out):
+        """ the exception that matches the error message of a remote command """
+        msg = out.decode(self.encoding, errors='surrogateescape').strip()
+        for number in (errno.ENOENT, errno.EACCES, errno.ENOTDIR,
+                       errno.EISDIR, errno.ELOOP, errno.ENAMETOOLONG):
+            if msg.endswith(os.strerror(number)):
+                return OSError(number, msg, self.rpath)
+
+        return OSError(msg)
+
     @property
     def cypher_command(self):
         # this one is a little backwards, because we can control
-- 
2.43.0


From 0c4449304c1cc0c6001d4606c6dd25f8639ae62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 58/80] fix: status over ssh quotes the path, follows links and
 reports what is in the way

---
 augpathlib/remotes.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 1ad6255..255a94b 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -939,7 +939,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = ' ' + shlex.quote(path)
+
+            # follow links, the same as for local paths
+            cmd = f'LC_ALL=C {cmd} -L'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -949,22 +952,21 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             return StatResult(out)
         except ValueError as e:
-            if out.endswith(b'Permission denied'):
-                raise PermissionError(out.decode())
-
-            elif out.endswith(b'No such file or directory'):
-                raise FileNotFoundError(out.decode())
-
-            else:
+            error = self._error(out)
+            if error.errno is None:
                 log.error(remote_cmd)
-                raise ValueError(out) from e
+
+            raise error from e
 
     def exists(self):
         try:
             st = self.stat()
             return bool(st)  # FIXME
-        except FileNotFoundError:  # FIXME there will be more types here ...
-            pass
+        except OSError as e:
+            if e.errno not in (errno.ENOENT, errno.ENOTDIR, errno.ELOOP):
+                raise e
+
+            return False
 
     @property
     def __parent(self):  # no longer needed since we inherit from path directly
@@ -996,7 +998,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
-- 
2.43.0


From cdf0f2b7b675b1c28f9ccb5df70a45a503276854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 59/80] fix: checksum over ssh uses the cypher asked for and
 reports unreadable files

---
 augpathlib/remotes.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 255a94b..d7fee89 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -923,12 +923,20 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
-                      'awk \'{ print $1 }\';')
-
-        hex_ = self._ssh(remote_cmd).decode(self.encoding)
+        command = self.cypher_command if cypher is None else cypher_command_lookup[cypher]
+        # read from stdin so that the name is not part of the output
+        remote_cmd = f'LC_ALL=C {command} < {shlex.quote(self.rpath)}'
+        out = self._ssh(remote_cmd)
+        hex_, _, rest = out.partition(b'  ')
         log.debug(hex_)
-        return bytes.fromhex(hex_)
+        if rest != b'-':
+            error = self._error(out)
+            if isinstance(error, IsADirectoryError):
+                return  # the same as for local paths
+
+            raise error
+
+        return bytes.fromhex(hex_.decode(self.encoding))
 
     def _stat_cmd(self, stat_format=StatResult.stat_format, path=None):
         # TODO use _stat_format_darwin for cases where gstat is missing
-- 
2.43.0


From 5a7e73b9bed56d9a7074fc81cfbdd4d950e890ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 60/80] fix: data over ssh quotes the path and reports failures

---
 augpathlib/remotes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index d7fee89..8857883 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -863,8 +863,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
-        p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
+        cmd = ['ssh', self.host, f'LC_ALL=C cat {shlex.quote(self.rpath)}']
+        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
             if not data:
-- 
2.43.0


From 1acf8265a748b9b41d3595ec0115c0555c4f834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 61/80] fix: access over ssh honors the most specific
 permission class

---
 augpathlib/remotes.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 8857883..a1a8e38 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -831,7 +831,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             st = self.stat()
 
-        except (PermissionError, FileNotFoundError) as e:
+        except OSError as e:
             return False
 
         r, w, x = 0x124, 0x92, 0x49
@@ -841,9 +841,16 @@ class SshRemote(RemotePath, pathlib.PurePath):
         current = read + write + execute
 
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        if self._uid == 0:  # execute needs at least one of the bits
+            return mode not in ('execute', os.X_OK) or current or stat.S_ISDIR(st.st_mode)
+
+        # only the most specific class counts even when it grants less
+        if st.st_uid == self._uid:
+            return u & current
+        elif st.st_gid in self._gids:
+            return g & current
+        else:
+            return e & current
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
-- 
2.43.0


From 8d3453a7b6c8ef003a8a6a940a1d315f24df23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 62/80] fix: list any directory over ssh

---
 augpathlib/remotes.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index a1a8e38..4d84395 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1024,23 +1024,33 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
-                          f"{self._stat_cmd(path='')} {{.,}}*;"
-                          "echo '----';"
-                          f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-                          'cd "${OLDPWD}"')
+            find = 'find . -mindepth 1 -maxdepth 1'
+            remote_cmd = (f"(export LC_ALL=C; cd {shlex.quote(self.rpath)} && ls > /dev/null && {{ "
+                          f"{find} -exec {self._stat_cmd(path='')} {{}} + ; "
+                          "echo '----'; "
+                          # directories etc. have no checksum and unreadable files are skipped
+                          f"{find.replace('.', '-L .', 1)} -type f -exec {self.cypher_command} {{}} + 2> /dev/null; }})")
 
             out = self._ssh(remote_cmd)
-            stats, checks = out.split(b'\r\n----\r\n')
+            stats, sep, checks = (b'\r\n' + out + b'\r\n').partition(b'\r\n----\r\n')
+            if not sep:
+                raise self._error(out)
+
             #print(stats)
-            stats = {sr.name:sr for s in stats.split(b'\r\n')
-                     for sr in (StatResult(s),)}
-            checks = {fn:bytes.fromhex(cs) for l in checks.split(b'\r\n')
-                      if not b'Is a directory' in l
-                      for cs, fn in (l.decode(self.encoding).split('  ', 1),)}
+            stats = {sr.name:sr for s in stats.split(b'\r\n') if s
+                     for sr in (StatResult(s[len('./'):]),)}
+            checks = {fn:bytes.fromhex(cs) for l in checks.split(b'\r\n') if l
+                      for cs, fn in (self._check_line(l),)}
 
             return stats, checks  # TODO
 
+    def _check_line(self, line):
+        cs, fn = line.decode(self.encoding, errors='surrogateescape').split('  ./', 1)
+        if cs.startswith('\\'):  # the name was escaped
+            cs, fn = cs[1:], fn.replace('\\\\', '\\')
+
+        return cs, fn
+
     def _mkdir_child(self, child_name):
         raise NotImplementedError('implement in subclass and/or fix instantiation/existence issues')
 
-- 
2.43.0


From 62739c4696463eb1decaf9ced056e69346b0de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 63/80] fix: clone_path picks the name that git clone picks

---
 augpathlib/repo.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 0224ebf..12c3094 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -36,7 +36,16 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
+        # git looks at the last component, where : is a separator as well
+        name = str(remote).rstrip('/')
+        if name.endswith('/.git'):
+            name = name[:-len('/.git')]
+
+        name = pathlib.PurePath(name).name.rsplit(':', 1)[-1]
+        suffix = '.bundle' if os.path.isfile(remote) else '.git'
+        if name.endswith(suffix):
+            name = name[:-len(suffix)]
+
         return self / name
 
     def clone_from(self, remote, *, depth=None):
-- 
2.43.0


From c739fa6838f9b41f0fd10a676633dfbefd5d17a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 64/80] fix: remote uri with a detached HEAD

---
 augpathlib/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 12c3094..a545aae 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -195,7 +195,8 @@ class RepoHelper:
         if netloc == 'github.com':
 
             if not ref or ref == 'HEAD':
-                ref = repo.active_branch.name
+                head = repo.head
+                ref = head.commit.hexsha if head.is_detached else head.reference.name
             elif (ref not in [r.name.replace(rnprefix, '') for r in repo.refs] and
                   ref not in [c.hexsha for c in repo.iter_commits(ref, max_count=1)]):
                 log.warning(f'unknown ref {ref}')
-- 
2.43.0


From 8b58c0cc6adf02b9645a7ccdb06356c5b4d24708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 65/80] fix: remote uris only name what is on github, with its
 full name and quoted

---
 augpathlib/repo.py | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index a545aae..d188cac 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,6 +1,6 @@
 import os
 import pathlib
-from urllib.parse import urlparse
+from urllib.parse import quote, urlparse
 from augpathlib import AugmentedPath
 from augpathlib import exceptions as exc
 from augpathlib.utils import log as _log
@@ -173,19 +173,32 @@ class RepoHelper:
         remote = repo.remote()
         rnprefix = remote.name + '/'
         url_base = next(remote.urls)
-        if url_base.startswith('git@'):
-            url_base = 'ssh://' + url_base
+        host, sep, path = url_base.partition(':')
+        if sep and '/' not in host and not path.startswith('//'):
+            # user@host:path is another way to write ssh://user@host/path
+            pu = urlparse(f'ssh://{host}/' + path.lstrip('/'))
+        else:
+            pu = urlparse(url_base)
 
-        pu = urlparse(url_base)
-        netloc = pu.netloc
-        path = pu.path
-        if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
-            netloc = 'github.com'
-            path = '/' + group + path
+        netloc = pu.hostname
+        path = pu.path.rstrip('/')
+        if path.endswith('.git'):
+            path = path[:-len('.git')]
 
         return repo, rnprefix, url_base, netloc, path
 
+    def _remote_local(self, url_base):
+        """ the repo that this one was cloned from if that is on this computer """
+        if url_base.startswith('/'):
+            other = self.__class__(url_base)
+            if other.name == '.git':
+                other = other.parent
+
+            if (other / '.git').exists():
+                return other
+
+        raise NotImplementedError(url_base)
+
     def _remote_uri(self, prefix, infix=None, ref=None):
         if isinstance(ref, self._git.Commit):
             ref = str(ref)
@@ -202,22 +215,22 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(infix) / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
-            return prefix + rpath.as_posix()
-        elif url_base.startswith('/') and self.__class__(url_base).exists():
-            other_rp = self.__class__(url_base)
-            other = other_rp / self.repo_relative_path
-            return other._remote_uri(prefix, infix, ref)
+                rpath = pathlib.PurePosixPath(ref) / self.repo_relative_path
+
+            return prefix + path + '/' + quote(os.fsencode(rpath.as_posix()))
         else:
-            raise NotImplementedError(url_base)
+            other = self._remote_local(url_base) / self.repo_relative_path
+            return other._remote_uri(prefix, infix, ref)
 
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
-        return f'https://api.github.com/repos{p}' + endpoint
+        if netloc != 'github.com':
+            return self._remote_local(url_base).remote_uri_api(endpoint)
+
+        return f'https://api.github.com/repos{path}' + endpoint
 
     def remote_uri_human(self, ref=None):
         return self._remote_uri('https://github.com', infix='blob', ref=ref)
-- 
2.43.0


From eefe0107d8c0b1f2b0664e09e95fad3ed385e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 66/80] fix: the files of a release include the modules of the
 package

---
 augpathlib/package.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 0472819..86098ba 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -353,16 +353,14 @@ class PackagePath(RepoPath):
     def release_files(self):
         # use to get the list of files that will be included in a release
         # so that we can limit the log to only those files
-        if not hasattr(self, 'Distribution'):
+        if not hasattr(self, 'manifest_maker'):
             from setuptools.command.egg_info import log as eilog
             eilog.set_threshold(99)
-            from setuptools.dist import Distribution
-            self.Distribution = Distribution
             from setuptools.command.egg_info import manifest_maker, FileList
             self.manifest_maker = manifest_maker
             self.FileList = FileList
 
-        mm = self.manifest_maker(self.Distribution())
+        mm = self.manifest_maker(self.setup_dist)
         mm.distribution.script_name = 'setup.py'  # FIXME check path on this one
         mm.manifest = 'MANIFEST.in'
         mm.filelist = self.FileList()
-- 
2.43.0


From 7169aa014b9751919487703f76654c0c06a8d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 67/80] fix: reading setup.py by way of a relative path

---
 augpathlib/package.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 86098ba..a1ae221 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -162,17 +162,16 @@ class PackagePath(RepoPath):
     _sk = setup_use_kwargs
     @property
     def setupfu(self):
-        # FIXME sometimes this can fail if there are nested setup.py files !??!
-        # and the base path is relative !??! temp workaround is to resolve all
-        # paths before use, but there is still a bug
         import logging
         sigh = logging.getLogger().level
         load_run_setup()
 
-        with self.folder:
+        # a relative path means something else once inside the folder
+        setup_file = self.setup_file
+        with setup_file.parent:
             #print('cwd', aug.AugmentedPath.cwd(), '\nsf', self.setup_file)
             try:
-                return run_setup(self.setup_file, stop_after='config')
+                return run_setup(setup_file, stop_after='config')
             finally:
                 logging.getLogger().setLevel(sigh)
 
-- 
2.43.0


From a73be38393b4ef8e23e6b95dbf302987326c6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 68/80] fix: without a tag all the commits are since the last
 release

---
 augpathlib/package.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index a1ae221..4b178d2 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -382,9 +382,8 @@ class PackagePath(RepoPath):
             rfs = [self.folder]
 
         _tag = self.tag
-        tag = _tag if _tag else ''
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                f'{_tag}..HEAD' if _tag else 'HEAD',
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 0ca78d74a2e0f5bce682ebb69d228987adda12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 69/80] fix: a tag of another package is not a tag of this one

---
 augpathlib/package.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 4b178d2..0336f28 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -1,7 +1,7 @@
 import importlib.util
 from urllib.parse import urlparse
 
-from packaging.version import parse as parse_version
+from packaging.version import InvalidVersion, parse as parse_version
 
 from .repo import RepoPath
 from .utils import log as _log
@@ -274,10 +274,7 @@ class PackagePath(RepoPath):
     def tag_latest_github(self):
         gj = self.github_json
         if gj:
-            if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
-            else:
-                these = [r for r in gj if r['tag_name'][0] in '0123456789']
+            these = [r for r in gj if self._tag_parse(r['tag_name']) is not None]
 
             if these:
                 latest = these[0]
@@ -301,6 +298,22 @@ class PackagePath(RepoPath):
         tag_prefix = False  # if for some reason we want to regularize version tagging that can go in the repo
         return self.setup_file.parent != self.working_dir or tag_prefix
 
+    def _tag_parse(self, tag):
+        """ the version if the tag is for a version of this package """
+        if self.tag_prefix:
+            prefix = self.arg_packagename + '-'
+            if not tag.startswith(prefix):
+                return
+
+            tag = tag[len(prefix):]
+        elif tag[0] not in '0123456789':
+            return
+
+        try:
+            return parse_version(tag)
+        except InvalidVersion:
+            pass  # the tag is for something else
+
     @property
     def tag(self):
         # the logic is that if module folder name == package name or we override via tag no rename
@@ -318,10 +331,17 @@ class PackagePath(RepoPath):
         else:
             match_version = '[0-9]*'
 
-        try:
-            return self.repo.git.describe('--abbrev=0', '--tags', f'--match={match_version}')
-        except self._git.exc.GitCommandError as e:
-            pass  # no tag for this version
+        args = ['--abbrev=0', '--tags', f'--match={match_version}']
+        while True:
+            try:
+                tag = self.repo.git.describe(*args)
+            except self._git.exc.GitCommandError as e:
+                return  # no tag for this version
+
+            if self._tag_parse(tag) is not None:
+                return tag
+
+            args.append(f'--exclude={tag}')
 
     @property
     def version_tag(self):
-- 
2.43.0


From 4eccf0489b778731ced1e2d8ad54ec7f086397e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 70/80] fix: mirroring an object with the folders it is in
 failed after the first of them

---
 augpathlib/remotes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 4d84395..b43be29 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -301,10 +301,7 @@ class RemotePath:
             if parents:
                 #parent, *rest = self.parent.cache_init(parents=parents)
                 #return (self.cache_init(), parent, *rest)
-                parent = self.parent
-                parent_cache = parent.cache_init(parents=parents)
-                parent_cache.local.cache_init(parent.meta) # FIXME hrm we shouldn't have to do this
-                # and it isn't working anyway ... the xattrs don't seem to be getting set
+                self.parent.cache_init(parents=parents)
                 return self.cache_init()
             else:
                 raise
-- 
2.43.0


From 86e3653d71fe376b289038048efd1e263e3f369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 71/80] fix: the path of a remote object found through its
 cache had the name of the root in it

---
 augpathlib/remotes.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index b43be29..877000d 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -473,16 +473,22 @@ class RemotePath:
             parent_names.append(parent.name)
             # FIXME can this go stale? if so how?
             #log.debug(cache_parent)
+            cached_names = []
             if cache_parent is not None and parent.id == cache_parent.id:
                     for c_parent in cache_parent.parents:
-                        if c_parent is None:
-                            continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                        if c_parent.id == remote.id:
                             break
                         else:
-                            parent_names.append(c_parent.name)
+                            cached_names.append(c_parent.name)
 
+                    else:
+                        cache_parent = None  # remote is not one of these
+
+            else:
+                cache_parent = None
+
+            if cache_parent is not None:
+                parent_names.extend(cached_names)
             else:
                 for parent in parent.parents:
                     if parent == remote:
-- 
2.43.0


From 7ca66465ed85118656d21bbce124543e8f95e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 72/80] fix: a push to a directory that may not be entered was
 remembered

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5556d8c..8da237d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -739,8 +739,9 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            pushed_from = self.cwd()
             self.chdir()
+            AugmentedPath._stack.append(pushed_from)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
-- 
2.43.0


From 61735bda394dd29270e95f724d4a0ab2310f6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 73/80] fix: a pop that failed lost the pushed directory

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8da237d..941dda0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -753,8 +753,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
+            path = AugmentedPath._stack[reversed_index]
             path.chdir()
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
-- 
2.43.0


From 6c621d669a8f10ac9d134eeaf7bcaedc948caec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 74/80] fix: the link to an objects folder outside of the data
 dir must not be relative to the data dir

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 168cf6b..a94cdd4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -247,7 +247,8 @@ class _CachePath(AugmentedPath):
                     log.error(msg)
                     raise e
 
-            lod.symlink_to(symlink_objects_to)
+            # a relative target would be relative to the data dir
+            lod.symlink_to(symlink_objects_to.absolute())
         else:
             lod.mkdir(exist_ok=exist_ok)
 
-- 
2.43.0


From fef3df22dc279ebf64d365bd5daf3ae3585af235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 75/80] fix: bootstrapping again after folders moved must not
 create a second cache with the same id

---
 augpathlib/caches.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index a94cdd4..5e8d7a9 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -523,6 +523,7 @@ class _CachePath(AugmentedPath):
 
             rd = set(d.as_path() for d in remote_dirs)  # FIXME as_path => lots of network calls
             old_local = local_dirs - rd
+            moved = bool(old_local)
             while old_local:
                 thisl = sorted(old_local, key=lambda d: len(d.as_posix()))
                 for d in thisl:
@@ -540,6 +541,11 @@ class _CachePath(AugmentedPath):
                                      if not ld.as_posix().startswith(d.as_posix()))
                     old_local = local_dirs - rd
 
+            if moved:
+                # the files in those folders are somewhere else now
+                file_index = {f.cache_id:f for f in self.local.rchildren
+                              if f.is_file() or f.is_broken_symlink()}
+
         if sparse:
             #if local_dirs:
                 #gen = (c for c in _local_remotes if c.is_dir() or (c.is_file() and c._sparse_include()))
@@ -568,7 +574,10 @@ class _CachePath(AugmentedPath):
                     file_is_different, nmeta = self._update_meta(cmeta, rmeta)
                     if file_is_different:
                         log.critical(f'WAT {_cache}')
-                    else:
+
+                    if (not file_is_different or
+                        # a second cache with the same id must not be created
+                        child._parent_changed(_cache) or child.name != _cache.name):
                         yield _cache
                         # yield the old cache if it exists
                         # otherwise consumers of bootstrap will
-- 
2.43.0


From 29536247c12348035da6f66afcc8dbfbfda38c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 76/80] fix: content_different must not raise when one side has
 no updated time

---
 augpathlib/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b54dca9..3ff9d4f 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -122,7 +122,10 @@ class PathMeta:
         if self.checksum and other.checksum:
             return self.checksum != other.checksum
         else:
+            # a time that is missing is not evidence of anything
             return (self.size != other.size or
+                    self.updated is not None and
+                    other.updated is not None and
                     self.updated < other.updated)
 
     def items(self):
-- 
2.43.0


From 60a60057a449999dd3e40b75f1aa7333cc14baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 77/80] fix: as_pretty_diff must show every key of either side

---
 augpathlib/meta.py | 43 ++++---------------------------------------
 1 file changed, 4 insertions(+), 39 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 3ff9d4f..8559e77 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -771,47 +771,12 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
             title = red.format(title)
 
         def merge(a, b):
-            keys = [k for k, _ in a]
-            okeys = [ok for ok, _ in b]
-            kind = [(k, okeys.index(k) - i, k)
-                    if k in okeys else
-                    (None, 0, k) for i, k in enumerate(keys)]
-            okind = [(ok, keys.index(ok) - i, ok)
-                     if ok in keys else
-                     (None, 0, ok) for i, ok in enumerate(okeys)]
-            long, short = ((kind, okind)
-                           if len(kind) > len(okind) else
-                           (okind, kind))
-            start_align = None
-            aligned = []
-            offset = 0
-            for i, (k, v, av) in enumerate(long):
-                i -= offset
-                if k is None and start_align is None:
-                    aligned.append(av)
-                    aligned.append(short[i + v][-1])
-                elif k is not None:
-                    if v <= 0:
-                        start_align = i
-                        aligned.append(av)
-                    else:
-                        for j in range(v):
-                            aligned.append(short[i + j][-1])
-                        offset += v
-                        aligned.append(av)
-
-                elif k is None:
-                    aligned.append(av)
-                # FIXME what to do if short has a key that long does not?
-
-            lkv = len(a[0])
-            lokv = len(b[0])
+            # every key of either, in the order that is common to both
             kv = {k:[k, v] for k, v in a}
             okv = {k:[k, v] for k, v in b}
-            for k in aligned:
-                l = kv[k] if k in kv else ([''] * lkv)
-                r = okv[k] if k in okv else ([''] * lokv)
-                yield l + r
+            for k in sorted({**kv, **okv}, key=lambda k: ((0, self.fields.index(k))
+                                                          if k in self.fields else (1, k))):
+                yield kv.get(k, ['', '']) + okv.get(k, ['', ''])
 
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
         rows = h + list(merge(self.rows(pathmeta, human=human),
-- 
2.43.0


From 7436adf22c31aa8f7f90f46072846d5d42d5f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 78/80] fix: the type of a link must not depend on how its path
 is written

---
 augpathlib/core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 941dda0..5b33960 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -793,10 +793,7 @@ class AugmentedPath(pathlib.Path):
             return 'inode/directory'  # matches _magic_mimetype
 
         if not self.is_absolute():  # needed for safe as_uri
-            if self.is_broken_symlink():
-                self = self.absolute()
-            else:
-                self = self.resolve()
+            self = self.absolute()
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if mime:
@@ -810,7 +807,7 @@ class AugmentedPath(pathlib.Path):
     @property
     def encoding(self):
         if not self.is_absolute():  # needed for safe as_uri
-            self = self.resolve()
+            self = self.absolute()
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if encoding:
-- 
2.43.0


From 4921fcd7ca254da918b4c11b06ce7e52de57ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:22 +0000
Subject: [PATCH 79/80] fix: tell the error handler of rmtree that a link is
 unlinked

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5b33960..a7633fd 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -728,7 +728,7 @@ class AugmentedPath(pathlib.Path):
         except BaseException as e:
             if not ignore_errors:
                 if onerror is not None:
-                    ftype = 'rmdir' if path.is_dir() else 'unlink'
+                    ftype = 'rmdir' if path.is_dir() and not path.is_symlink() else 'unlink'
                     func = getattr(path, ftype)
                     onerror(func, path, sys.exc_info())
                 else:
-- 
2.43.0


From 11bcbdf9f34af34bf3e0f8c34edcf452ce26fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:22 +0000
Subject: [PATCH 80/80] fix: the cache root of a path through a link into the
 tree

---
 augpathlib/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a7633fd..1191a91 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1198,7 +1198,10 @@ class LocalPath(EatPath, AugmentedPath):
 
             else:
                 if found_cache and found_cache != root:
-                    return found_cache
+                    # the path might have gone through a link into the tree
+                    real = self.__class__(os.path.realpath(found_cache))
+                    if real.parent.find_cache_root() is None:
+                        return found_cache
 
     @property
     def skip_cache(self):
-- 
2.43.0

