From 087df300bb2cd0199a135528c6028977f486fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 01/31] fix: keep files with the same name apart when trashing
 them together

Two remote files with the same basename that were trashed by one sync were
given the same name in the trash, so the second one replaced the first.
---
 zielen/filelogic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..9003fb6 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -842,6 +842,7 @@ class FilesManager:
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
             new_filenames.append(new_filename)
+            trash_filenames.add(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
             abs_old_path = os.path.join(self.remote_dir.safe_path, old_path)
-- 
2.43.0


From 647d40cc9d916964e85d01b956eabd1ac0f089d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 02/31] fix: handle symbolic links in the trash directory

A symbolic link in the trash (dangling or not) made every later sync fail
while cleaning up, because it was followed by stat() and refused by rmtree(),
and its mtime was not updated when it was trashed.
---
 zielen/filelogic.py | 6 +++---
 zielen/fstools.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9003fb6..67512a5 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -862,10 +862,10 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..14bacc7 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -229,9 +229,9 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
+    elif os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From 4b8697bcfcfd25263e108f02a3ddfc6e0bc530dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 03/31] fix: don't fail on deleted files that are missing from
 the remote database

A file deleted locally that another client had already removed from the
remote database made compute_deleted() raise KeyError, on every sync.
---
 zielen/filelogic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 67512a5..4e4ece8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -675,11 +675,11 @@ class FilesManager:
         remote_del_paths = known_paths - local_paths
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
             sub_paths = set(self.remote_dir.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             remote_del_paths -= sub_paths
 
         # Compute files to be moved to the trash.
-- 
2.43.0


From d17cd4a07e2604669ab1833c7d6e012be7f8373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 04/31] fix: keep excluded files inside of deleted directories

Excluded paths are also removed from both databases, as documented.
---
 zielen/filelogic.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4e4ece8..e6b16af 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -26,7 +26,7 @@ from typing import Iterable, Tuple, Set, NamedTuple
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.utils import timestamp_path
+from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
     is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
@@ -781,8 +781,21 @@ class FilesManager:
             paths: The relative paths of files to remove.
         """
         paths = set(paths)
-        paths -= self.profile.all_exclude_matches(self.local_dir.path)
-        self._rm_files(paths, self.local_dir.path)
+        excluded_paths = set(get_path_ancestry(
+            self.profile.all_exclude_matches(self.local_dir.path)))
+
+        # Directories are only removed as a whole if they don't contain any
+        # excluded files.
+        rm_paths = set()
+        for path in paths:
+            if path in excluded_paths:
+                rm_paths |= self.profile.get_paths(root=path).keys()
+            else:
+                rm_paths.add(path)
+
+        self._rm_files(rm_paths - excluded_paths, self.local_dir.path)
+        self.profile.rm_paths(paths)
+        self.remote_dir.rm_paths(paths)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
-- 
2.43.0


From 7e14d02c83bc7a902b2d44f43e0060a9713a6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 05/31] fix: transfer empty directories and symbolic links
 given explicitly

---
 zielen/fstools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 14bacc7..8c4a54e 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,11 +67,16 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
+            rel_paths.add(path)
+            full_path = os.path.join(source, path)
+            if os.path.islink(full_path):
+                # Symbolic links are copied and not followed.
+                continue
             try:
-                for entry in scan_tree(os.path.join(source, path)):
+                for entry in scan_tree(full_path):
                     rel_paths.add(os.path.relpath(entry.path, source))
             except NotADirectoryError:
-                rel_paths.add(path)
+                pass
 
     if exclude is not None:
         rel_paths -= set(exclude)
-- 
2.43.0


From 0ca20366ac55dbf3a8eb5953332d37d80ea9f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 06/31] fix: don't leave partial files or write through links
 in a transfer

---
 zielen/fstools.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 8c4a54e..d9ab4e8 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -24,7 +24,7 @@ import shutil
 import tempfile
 from typing import Iterable, Optional, Set
 
-from zielen.utils import shell_cmd, ProgressBar
+from zielen.utils import secure_string, shell_cmd, ProgressBar
 from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
@@ -99,12 +99,10 @@ def transfer_tree(
     for source_path, dest_path in zip(source_paths, dest_paths):
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except IsADirectoryError:
-            os.makedirs(dest_path, exist_ok=True)
+            if os.path.isdir(source_path) and not os.path.islink(source_path):
+                os.makedirs(dest_path, exist_ok=True)
+            else:
+                replace_file(source_path, dest_path)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -126,6 +124,27 @@ def transfer_tree(
         print()
 
 
+def replace_file(source_path: str, dest_path: str) -> None:
+    """Copy a file over another one once it has been copied completely.
+
+    Symbolic links are not followed, neither in the source nor in the
+    destination. If the operation is interrupted, then the destination is left
+    unchanged.
+
+    Args:
+        source_path: The path of the file to copy.
+        dest_path: The path of the file to create or replace.
+    """
+    temp_path = os.path.join(
+        os.path.dirname(dest_path), ".zielen-" + secure_string(8))
+    try:
+        shutil.copy2(source_path, temp_path, follow_symlinks=False)
+        os.replace(temp_path, dest_path)
+    finally:
+        if os.path.lexists(temp_path):
+            os.remove(temp_path)
+
+
 def symlink_tree(
         src_dir: str, dest_dir: str, src_files: Iterable[str],
         src_dirs: Iterable[str], overwrite=False) -> Set[str]:
-- 
2.43.0


From 5219cbc6f7a0455e38d5d0afd5a50a34271f974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 07/31] fix: never leave local files missing while replacing
 them with links

---
 zielen/filelogic.py | 34 ++++++++++++++--------------------
 zielen/fstools.py   | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e6b16af..73f24db 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
-    is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    is_unsafe_symlink, replace_with_symlink, symlink_tree, transfer_tree,
+    update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -367,27 +368,20 @@ class FilesManager:
         """
         update_paths = set(update_paths)
 
-        # Sort the file paths so that a directory's contents always come
-        # before the directory itself.
-        stale_paths = list(self.compute_stale(update_paths))
-        stale_paths.sort(key=lambda x: x.count(os.sep), reverse=True)
-
-        # Remove old, unneeded files to make room for new ones.
-        for stale_path in stale_paths:
+        # Replace old, unneeded files with symlinks to make room for new ones.
+        # A file is never missing from the local directory in the meantime, as
+        # it would look like it had been deleted by the user if the sync were
+        # to be interrupted.
+        stale_paths = set()
+        for stale_path in self.compute_stale(update_paths):
             full_stale_path = os.path.join(self.local_dir.path, stale_path)
             if os.path.islink(full_stale_path):
-                # The path will just be replaced with a symlink anyways.
                 continue
-            try:
-                os.remove(full_stale_path)
-            except IsADirectoryError:
-                try:
-                    os.rmdir(full_stale_path)
-                except OSError:
-                    # There are still files in the directory. This could
-                    # happen if there were symbolic links in the directory
-                    # that weren't deleted.
-                    pass
+            stale_paths.add(stale_path)
+            if not os.path.isdir(full_stale_path):
+                replace_with_symlink(
+                    os.path.join(self.remote_dir.safe_path, stale_path),
+                    full_stale_path)
 
         try:
             nonlocal_paths = symlink_tree(
@@ -410,7 +404,7 @@ class FilesManager:
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths, local=False)
+        self.profile.update_paths(nonlocal_paths | stale_paths, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index d9ab4e8..5dd1fd8 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -145,6 +145,19 @@ def replace_file(source_path: str, dest_path: str) -> None:
             os.remove(temp_path)
 
 
+def replace_with_symlink(link_dest: str, path: str) -> None:
+    """Replace a file with a symbolic link in a single step.
+
+    Args:
+        link_dest: The path that the symbolic link points to.
+        path: The path of the file to replace.
+    """
+    temp_path = os.path.join(
+        os.path.dirname(path), ".zielen-" + secure_string(8))
+    os.symlink(link_dest, temp_path)
+    os.replace(temp_path, path)
+
+
 def symlink_tree(
         src_dir: str, dest_dir: str, src_files: Iterable[str],
         src_dirs: Iterable[str], overwrite=False) -> Set[str]:
@@ -194,8 +207,7 @@ def symlink_tree(
                 os.symlink(full_src_path, full_dest_path)
             except FileExistsError:
                 if overwrite:
-                    os.remove(full_dest_path)
-                    os.symlink(full_src_path, full_dest_path)
+                    replace_with_symlink(full_src_path, full_dest_path)
                     new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
-- 
2.43.0


From 74b03645119a6d35eb5e4e3ea9356d700d611382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 08/31] fix: accept the storage limit regardless of the case of
 its unit

---
 zielen/profile.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..a05afd9 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -224,16 +224,17 @@ class Profile:
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
 
-        if unit == "iB" or not unit:
-            base = 1024
-        elif unit == "B":
+        # The unit is not case-sensitive.
+        if unit.lower() == "b":
             base = 1000
+        else:
+            base = 1024
 
-        if prefix in ["k", "K"]:
+        if prefix.lower() == "k":
             exponent = 1
-        elif prefix == "M":
+        elif prefix.lower() == "m":
             exponent = 2
-        elif prefix == "G":
+        elif prefix.lower() == "g":
             exponent = 3
 
         return int(num) * base**exponent
-- 
2.43.0


From 2f78b78992c440c1b0d3f1dbeb2254ba49d95c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 09/31] fix: interpret capitalized and blank boolean config
 values correctly

---
 zielen/profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index a05afd9..1dc94a2 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -260,9 +260,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
@@ -972,7 +972,7 @@ class ProfileConfigFile(ConfigFile):
     @DictProperty
     def vals(self, key: str) -> Any:
         """Get defaults if corresponding raw values are unset."""
-        if key in self.raw_vals:
+        if self.raw_vals.get(key):
             return self.raw_vals[key]
         elif key in self._defaults:
             return self._defaults[key]
-- 
2.43.0


From 34601d58d56dbc67d94b034321719c1d75f01546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 10/31] fix: expand the home directory before normalizing
 configured paths

---
 zielen/profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 1dc94a2..0c40ab8 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -208,14 +208,14 @@ class Profile:
     @property
     def local_path(self) -> str:
         """The absolute path of the local directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["LocalDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["LocalDir"]))
 
     @property
     def remote_path(self) -> str:
         """The absolute path of the remote directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["RemoteDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["RemoteDir"]))
 
     @property
     def storage_limit(self) -> int:
-- 
2.43.0


From 4af2af9806bc3215c7da26c80cb1b19050c08afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 11/31] fix: select profiles by the path of their local
 directory

---
 zielen/commandbase.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..ebcb1ea 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -28,7 +28,7 @@ import functools
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.profile import Profile
-from zielen.exceptions import InputError, StatusError
+from zielen.exceptions import FileParseError, InputError, StatusError
 
 
 def unlock(func):
@@ -86,11 +86,14 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
-                    return profile
+                try:
+                    profile.read()
+                    if os.path.samefile(input_path, profile.local_path):
+                        return profile
+                except (FileNotFoundError, FileParseError):
+                    # This profile is incomplete or its local directory
+                    # doesn't exist.
+                    continue
         raise InputError(
             "argument is not a profile name or local directory path")
 
-- 
2.43.0


From a9c3a31078fddf16e80280a348310e71f20580ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 12/31] fix: remove the old paths of renamed files from both
 databases

---
 zielen/filelogic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 73f24db..82071d3 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -701,7 +701,7 @@ class FilesManager:
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
 
-        old_paths = (old_path for old_path, new_path in path_pairs)
+        old_paths = [old_path for old_path, new_path in path_pairs]
 
         # Separate paths of directories from paths of regular files based on
         # whether the old paths are entered as directories in the database.
-- 
2.43.0


From c00c182c2ac0a6b2201d6ac4530737107dad9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 13/31] fix: record files copied over a new link as kept
 locally

---
 zielen/filelogic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 82071d3..a3dc0fc 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -400,11 +400,12 @@ class FilesManager:
                 raise
 
         # Update the database with information about which paths are being
-        # kept in the local directory.
+        # kept in the local directory. Files which had to be created as
+        # symlinks first may have been replaced by a copy since.
+        self.profile.update_paths(nonlocal_paths | stale_paths, local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths | stale_paths, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
-- 
2.43.0


From 0e3c11dc24ab4483c9a6a7b7d39f07911a5bb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 14/31] fix: add files with inflated priority to a database
 without files

---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 0c40ab8..7bbaca0 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -639,7 +639,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From 4e9179b5d8cbf9cc55ce0878b2996e2fc9feabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 15/31] fix: don't follow symbolic links matched by exclude
 patterns

---
 zielen/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index 7bbaca0..a491e41 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -367,6 +367,9 @@ class ProfileExcludeFile:
                 rel_match_path = os.path.relpath(match_path, start_path)
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
+                if os.path.islink(match_path.rstrip(os.sep)):
+                    # Symbolic links are not followed.
+                    continue
                 try:
                     for entry in scan_tree(match_path):
                         self._all_matches[start_path].add(
-- 
2.43.0


From 085906b675ff5f5343bb246229249ee928ebeebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 16/31] fix: clean up the trash if the cleanup period is zero
 days

---
 zielen/commands/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..0874bf9 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -131,7 +131,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-- 
2.43.0


From 4c7ea781c9b25e64e246d970494479feadd3e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 17/31] fix: reject a priority half-life of zero

---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index a491e41..6d9df7a 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -932,8 +932,8 @@ class ProfileConfigFile(ConfigFile):
             if not re.search("^[0-9]+$", value):
                 return "must be an integer"
         elif key == "PriorityHalfLife":
-            if not re.search("^[0-9]+$", value):
-                return "must be an integer"
+            if not re.search("^0*[1-9][0-9]*$", value):
+                return "must be a positive integer"
         elif key == "TrashCleanupPeriod":
             if not re.search(r"^-?[0-9]+$", value):
                 return "must be an integer"
-- 
2.43.0


From f9870d0c7b5234f098b1de78b3762b37fc73e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 18/31] fix: normalize link targets before removing links in a
 reset

---
 zielen/commands/reset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..2adc349 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -98,8 +98,8 @@ class ResetCommand(Command):
         for rel_path in local_symlinks:
             full_path = os.path.join(self.local_dir.path, rel_path)
             link_dest = os.readlink(full_path)
-            if not os.path.isabs(link_dest):
-                link_dest = os.path.join(os.path.dirname(full_path), link_dest)
+            link_dest = os.path.normpath(
+                os.path.join(os.path.dirname(full_path), link_dest))
             if os.path.commonpath([
                     link_dest,
                     self.remote_dir.safe_path]) == self.remote_dir.safe_path:
-- 
2.43.0


From 3460ad4364c142e5dd590c47dde8b30bed9cab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 19/31] fix: lock the profile before reading it

---
 zielen/commandbase.py   | 3 ++-
 zielen/commands/init.py | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index ebcb1ea..753c3c3 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -103,8 +103,9 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
+        # The profile must not change anymore after it has been read.
         self.lock()
+        self.profile.read()
 
         # Warn if profile is only partially initialized.
         if self.profile.status == "partial":
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..aff842a 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -93,6 +93,11 @@ class InitCommand(Command):
 
         atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
+
+        # Lock profile if not already locked. The profile must not change
+        # anymore after it has been read.
+        self.lock()
+
         try:
             self.profile.read()
         except FileNotFoundError:
@@ -102,9 +107,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
-- 
2.43.0


From 5496fc599e58606652759190e52d0d076166a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 20/31] fix: don't mark an incomplete profile as partially
 initialized

---
 zielen/profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 6d9df7a..ddba1b9 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -99,7 +99,6 @@ class Profile:
         os.makedirs(self.path, exist_ok=True)
 
         self._exclude_file.generate(exclude_path)
-        self._info_file.generate(self.name, init_options)
 
         try:
             self._db_file.create()
@@ -122,6 +121,11 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+        # This marks the profile as partially initialized, so it must come
+        # last. Otherwise, the profile could be neither resumed nor reset if
+        # the program is killed in the middle of this.
+        self._info_file.generate(self.name, init_options)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
-- 
2.43.0


From 53285d298cb54d4e89d4a192e31d4bcbcd8d2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 21/31] fix: replace JSON files atomically

---
 zielen/containerbase.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..00e2599 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -105,9 +105,15 @@ class JSONFile:
             self.vals = json.load(file)
 
     def write(self) -> None:
-        """Write object to a file."""
-        with open(self.path, "w") as file:
+        """Write object to a file.
+
+        The file is replaced atomically so that an interruption can't leave
+        an incomplete file behind.
+        """
+        temp_path = "{0}.{1}.tmp".format(self.path, os.getpid())
+        with open(temp_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(temp_path, self.path)
 
 
 class SyncDBFile:
-- 
2.43.0


From 52ee4d658050941694bbf2c1039fb8d3bd79251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 22/31] fix: ignore incomplete profiles when verifying the
 local directory

---
 zielen/commands/init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index aff842a..2449c06 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -202,7 +202,11 @@ class InitCommand(Command):
             if profile is self.profile or not os.path.isfile(profile.cfg_path):
                 continue
 
-            profile.read()
+            try:
+                profile.read()
+            except FileNotFoundError:
+                # The files of this profile were never completely generated.
+                continue
 
             common_path = os.path.commonpath([profile.local_path, dir_path])
             if common_path in [profile.local_path, dir_path]:
-- 
2.43.0


From 588adf28df5a79fa8fc8c9c8bb9e03b6e1950c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 23/31] fix: report undecodable config files as parse errors

---
 zielen/containerbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 00e2599..229d810 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -56,7 +56,7 @@ class ConfigFile:
                             and self.SEPARATOR in line):
                         key, value = line.partition(self.SEPARATOR)[::2]
                         self.raw_vals[key.strip()] = value.strip()
-        except OSError:
+        except (OSError, UnicodeDecodeError):
             raise FileParseError("could not open the configuration file")
 
     def write(self, template_path: str) -> None:
-- 
2.43.0


From a3edc90fc82b3260178345e2c9d5e5b2f9027d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 24/31] fix: record files that were linked before
 initialization was interrupted

---
 zielen/filelogic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index a3dc0fc..8b44412 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -480,7 +480,13 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir(unsafe_symlinks)
+        # The symlinks that an interrupted initialization has already created
+        # are not the user's.
+        linked_paths = {
+            path for path in unsafe_symlinks
+            if os.readlink(os.path.join(self.local_dir.path, path))
+            == os.path.join(self.remote_dir.safe_path, path)}
+        self._setup_dir(unsafe_symlinks - linked_paths)
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-- 
2.43.0


From 429a7f3d187840c7cdc6e4e4dd23b1219c25a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 25/31] fix: don't compare an incomplete profile with its own
 leftovers

---
 zielen/commands/init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 2449c06..699122a 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -199,7 +199,9 @@ class InitCommand(Command):
 
         overlap_profiles = []
         for name, profile in self.profiles.items():
-            if profile is self.profile or not os.path.isfile(profile.cfg_path):
+            # The same profile may be left over from an earlier attempt.
+            if (name == self.profile.name
+                    or not os.path.isfile(profile.cfg_path)):
                 continue
 
             try:
-- 
2.43.0


From b8eb2f90104860623c83fd75f4d75808435e3d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 26/31] fix: commit the profile database before recording that
 it is complete

---
 zielen/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index ddba1b9..b86753a 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -128,8 +128,10 @@ class Profile:
 
     def write(self) -> None:
         """Write data to persistent storage."""
-        self._info_file.write()
+        # The info file says how complete the database is, so it must come
+        # last.
         self._db_file.commit()
+        self._info_file.write()
 
     @property
     def status(self) -> str:
-- 
2.43.0


From 70d38f4008e2688b1bfe3e784303b4c875351ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 27/31] fix: don't sync unsafe symlinks and excluded files in
 new directories

---
 zielen/filelogic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8b44412..d5bea53 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -416,11 +416,23 @@ class FilesManager:
         Raises:
             RemoteError: The remote directory is unmounted.
         """
+        update_paths = set(update_paths)
+
+        # These may be in one of the directories to update.
+        excluded_paths = {
+            link_path for link_path in self.local_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if is_unsafe_symlink(
+                os.path.join(self.local_dir.path, link_path),
+                self.local_dir.path)}
+        excluded_paths |= self.profile.all_exclude_matches(self.local_dir.path)
+
         # Copy modified local files to the remote directory.
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths, exclude=excluded_paths - update_paths,
+                message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From 2952966422ba54d1be99ef2920d994c6a0a38352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 28/31] fix: don't leave a temporary link if replacing a file
 fails

---
 zielen/fstools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 5dd1fd8..ac5b5b5 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -154,8 +154,12 @@ def replace_with_symlink(link_dest: str, path: str) -> None:
     """
     temp_path = os.path.join(
         os.path.dirname(path), ".zielen-" + secure_string(8))
-    os.symlink(link_dest, temp_path)
-    os.replace(temp_path, path)
+    try:
+        os.symlink(link_dest, temp_path)
+        os.replace(temp_path, path)
+    finally:
+        if os.path.lexists(temp_path):
+            os.remove(temp_path)
 
 
 def symlink_tree(
-- 
2.43.0


From 1bcdf55b3b67cef4f49d67dd27cf00947e342f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 29/31] fix: find a profile by its directory if another one is
 inaccessible

---
 zielen/commandbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 753c3c3..cc72511 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -90,9 +90,9 @@ class Command(abc.ABC):
                     profile.read()
                     if os.path.samefile(input_path, profile.local_path):
                         return profile
-                except (FileNotFoundError, FileParseError):
+                except (OSError, ValueError, FileParseError):
                     # This profile is incomplete or its local directory
-                    # doesn't exist.
+                    # isn't accessible.
                     continue
         raise InputError(
             "argument is not a profile name or local directory path")
-- 
2.43.0


From bf707c6c98e8290860920d14a5403115cbef64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 30/31] fix: clean up a failed initialization while its profile
 is locked

---
 zielen/commands/init.py | 64 +++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 699122a..d8e55e2 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -60,13 +60,6 @@ class InitCommand(Command):
             InputError: The command-line arguments were invalid.
         """
         # Define cleanup functions.
-        def cleanup_profile() -> None:
-            """Remove the profile directory if empty."""
-            try:
-                os.rmdir(self.profile.path)
-            except OSError:
-                pass
-
         def delete_profile() -> None:
             """Delete the profile directory."""
             try:
@@ -91,7 +84,6 @@ class InitCommand(Command):
                 raise InputError(
                     "argument for '--template' is not a valid file")
 
-        atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
 
         # Lock profile if not already locked. The profile must not change
@@ -121,38 +113,40 @@ class InitCommand(Command):
             self.remote_dir = RemoteSyncDir(self.profile.remote_path)
             fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         else:
-            # Start a new initialization.
-            atexit.register(delete_profile)
-
-            # Generate all files in the profile directory.
-            init_options = {
-                "add_remote": self.add_remote}
-            self.profile.generate(
-                init_options=init_options, exclude_path=self.exclude,
-                template_path=self.template)
-
-            # Check validity of local and remote directories.
-            error_message = check_dir(
-                self.profile.local_path, self.add_remote)
-            if error_message:
-                raise InputError("local directory {}".format(error_message))
-            error_message = self._verify_local_dir(self.profile.local_path)
-            if error_message:
-                raise InputError(error_message)
-            error_message = check_dir(
-                self.profile.remote_path, not self.add_remote)
-            if error_message:
-                raise InputError("remote directory {}".format(error_message))
-
-            self.local_dir = LocalSyncDir(self.profile.local_path)
-            self.remote_dir = RemoteSyncDir(self.profile.remote_path)
-            fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
+            # Start a new initialization. If it fails before it can be
+            # resumed, delete the profile while it is still locked.
+            try:
+                # Generate all files in the profile directory.
+                init_options = {
+                    "add_remote": self.add_remote}
+                self.profile.generate(
+                    init_options=init_options, exclude_path=self.exclude,
+                    template_path=self.template)
+
+                # Check validity of local and remote directories.
+                error_message = check_dir(
+                    self.profile.local_path, self.add_remote)
+                if error_message:
+                    raise InputError("local directory {}".format(error_message))
+                error_message = self._verify_local_dir(self.profile.local_path)
+                if error_message:
+                    raise InputError(error_message)
+                error_message = check_dir(
+                    self.profile.remote_path, not self.add_remote)
+                if error_message:
+                    raise InputError("remote directory {}".format(error_message))
+
+                self.local_dir = LocalSyncDir(self.profile.local_path)
+                self.remote_dir = RemoteSyncDir(self.profile.remote_path)
+                fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
+            except BaseException:
+                delete_profile()
+                raise
 
             # The profile is now partially initialized. If the
             # initialization is interrupted from this point, it can be
             # resumed.
             atexit.register(self.print_interrupt_msg)
-            atexit.unregister(delete_profile)
 
         self.remote_dir.generate()
 
-- 
2.43.0


From bbdda7e352f17b4152278422f31690a06053893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 31/31] fix: exclude patterns matched nothing if the path of
 the sync directory contains brackets

---
 zielen/profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index b86753a..ad96636 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -356,6 +356,9 @@ class ProfileExcludeFile:
         self._matches[start_path] = set()
         self._all_matches[start_path] = set()
 
+        # The directory itself is not part of the patterns.
+        glob_root = glob.escape(start_path)
+
         for line in self._readlines():
             # This assumes that cases where the user may accidentally leave
             # leading/trailing whitespace are more common than cases where they
@@ -364,10 +367,10 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(glob_root, line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(glob_root, "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
-- 
2.43.0

