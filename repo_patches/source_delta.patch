From f9675a6b7714aa827876f2716462d2ff6c243156 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 01/45] fix: lock the profile before reading its state

---
 zielen/commandbase.py   | 4 +++-
 zielen/commands/init.py | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..6ce7131 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -100,8 +100,10 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
+        # The profile must be locked before its state is read. Otherwise, the
+        # state that was read could be outdated by the time the lock is held.
         self.lock()
+        self.profile.read()
 
         # Warn if profile is only partially initialized.
         if self.profile.status == "partial":
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..cd90521 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -93,6 +93,11 @@ class InitCommand(Command):
 
         atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
+
+        # Lock profile if not already locked. This must happen before the
+        # state of the profile is read.
+        self.lock()
+
         try:
             self.profile.read()
         except FileNotFoundError:
@@ -102,9 +107,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
-- 
2.43.0


From e3b25ef6f94fe2a5f6fc2fcd6088c138b5b65e3b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 02/45] fix: don't overwrite trashed files with the same name

---
 zielen/filelogic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..9003fb6 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -842,6 +842,7 @@ class FilesManager:
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
             new_filenames.append(new_filename)
+            trash_filenames.add(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
             abs_old_path = os.path.join(self.remote_dir.safe_path, old_path)
-- 
2.43.0


From 13f86a7a12edfd8d2f70ef708332a00836d921ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 03/45] fix: accept lower-case units in StorageLimit

---
 zielen/profile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..8debd18 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -224,12 +224,16 @@ class Profile:
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
 
-        if unit == "iB" or not unit:
+        # Units are not case-sensitive.
+        prefix = prefix.upper()
+        unit = unit.upper()
+
+        if unit == "IB" or not unit:
             base = 1024
         elif unit == "B":
             base = 1000
 
-        if prefix in ["k", "K"]:
+        if prefix == "K":
             exponent = 1
         elif prefix == "M":
             exponent = 2
-- 
2.43.0


From f1a7bac021ad184c0ccca77dd5d02c86944ad7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 04/45] fix: convert boolean options regardless of case

---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 8debd18..1dc9616 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -263,9 +263,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
-- 
2.43.0


From 526f151b89cd9e0ced021c89486b56e60655db79 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 05/45] fix: use the default value of options that are left
 blank

---
 zielen/profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 1dc9616..2b83730 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -975,10 +975,10 @@ class ProfileConfigFile(ConfigFile):
     @DictProperty
     def vals(self, key: str) -> Any:
         """Get defaults if corresponding raw values are unset."""
-        if key in self.raw_vals:
-            return self.raw_vals[key]
-        elif key in self._defaults:
+        if not self.raw_vals.get(key) and key in self._defaults:
             return self._defaults[key]
+        elif key in self.raw_vals:
+            return self.raw_vals[key]
 
     @vals.setter
     def vals(self, key: str, value: str) -> None:
-- 
2.43.0


From 3edade52e144e00674a3b8449e8e203dd070aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 06/45] fix: reject a priority half-life of zero

---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 2b83730..a451ca4 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -932,8 +932,8 @@ class ProfileConfigFile(ConfigFile):
             if not re.search("^[0-9]+$", value):
                 return "must be an integer"
         elif key == "PriorityHalfLife":
-            if not re.search("^[0-9]+$", value):
-                return "must be an integer"
+            if not re.search("^0*[1-9][0-9]*$", value):
+                return "must be an integer greater than zero"
         elif key == "TrashCleanupPeriod":
             if not re.search(r"^-?[0-9]+$", value):
                 return "must be an integer"
-- 
2.43.0


From c4f5a5742481a60707d2a403a725f06271989cdb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 07/45] fix: forget options that were removed from the config
 file

---
 zielen/containerbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..7da1637 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -48,6 +48,9 @@ class ConfigFile:
 
     def read(self) -> None:
         """Parse file for key-value pairs and save in a dictionary."""
+        # Options may have been removed from the file since it was last read.
+        self.raw_vals.clear()
+
         try:
             with open(self.path) as file:
                 for line in file:
-- 
2.43.0


From d9085bcc86b4b0b1893596169459c50fb6068283 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 08/45] fix: remove renamed paths from both databases

---
 zielen/filelogic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9003fb6..4108dc2 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -707,7 +707,7 @@ class FilesManager:
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
 
-        old_paths = (old_path for old_path, new_path in path_pairs)
+        old_paths = [old_path for old_path, new_path in path_pairs]
 
         # Separate paths of directories from paths of regular files based on
         # whether the old paths are entered as directories in the database.
-- 
2.43.0


From 5595a626022a0a7e28098e45cd829b52d5a8d539 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 09/45] fix: don't write to the remote directory when it is
 unmounted

---
 zielen/commands/reset.py | 2 +-
 zielen/filelogic.py      | 4 ++--
 zielen/fstools.py        | 7 +++++++
 zielen/userdata.py       | 4 +++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..3d4a280 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -102,7 +102,7 @@ class ResetCommand(Command):
                 link_dest = os.path.join(os.path.dirname(full_path), link_dest)
             if os.path.commonpath([
                     link_dest,
-                    self.remote_dir.safe_path]) == self.remote_dir.safe_path:
+                    self.remote_dir.path]) == self.remote_dir.path:
                 os.remove(full_path)
 
         self.remote_dir.rm_exclude_file(self.profile.id)
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4108dc2..3c14638 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -391,7 +391,7 @@ class FilesManager:
 
         try:
             nonlocal_paths = symlink_tree(
-                self.remote_dir.safe_path, self.local_dir.path,
+                self.remote_dir.path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False),
                 self.remote_dir.get_paths(directory=True))
 
@@ -452,7 +452,7 @@ class FilesManager:
         # Overwrite local files with symlinks to the corresponding files in the
         # remote dir.
         symlink_tree(
-            self.remote_dir.safe_path, self.local_dir.path,
+            self.remote_dir.path, self.local_dir.path,
             self.profile.get_paths(directory=False),
             self.profile.get_paths(directory=True),
             overwrite=True)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..78d38f3 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -92,6 +92,13 @@ def transfer_tree(
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
 
     for source_path, dest_path in zip(source_paths, dest_paths):
+        # Create the destination, but not its parents. If the remote directory
+        # was unmounted, it must not be created again in the empty mountpoint.
+        try:
+            os.mkdir(dest)
+        except FileExistsError:
+            pass
+
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
             shutil.copy2(source_path, dest_path, follow_symlinks=False)
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 5d06371..38828fe 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -153,7 +153,9 @@ class RemoteSyncDir(SyncDir):
     def __init__(self, path: str) -> None:
         super().__init__(path)
         self.util_dir = os.path.join(self.path, ".zielen")
-        self.safe_path = os.path.normpath(os.path.join(self.util_dir, ".."))
+        # This path must not be normalized, as that would remove util_dir from
+        # it.
+        self.safe_path = os.path.join(self.util_dir, "..")
         self.trash_dir = os.path.join(self.util_dir, "Trash")
         self._exclude_dir = os.path.join(self.util_dir, "exclude")
         self._db_file = RemoteDBFile(os.path.join(self.util_dir, "remote.db"))
-- 
2.43.0


From 8ca155885b3926533c51b2db09389e113034da8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 10/45] fix: don't delete files from an empty mountpoint

---
 zielen/filelogic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 3c14638..20a53c2 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -790,7 +790,7 @@ class FilesManager:
         Args:
             paths: The relative paths of files to remove.
         """
-        self._rm_files(paths, self.remote_dir.path)
+        self._rm_files(paths, self.remote_dir.safe_path)
 
     def rm_excluded_files(self, excluded_paths: Iterable[str]) -> None:
         """Remove excluded files from the remote directory.
-- 
2.43.0


From 0e4796b6c09a3d257e0baab3d64922a428f4b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 11/45] fix: select a profile by its local directory path

---
 zielen/commandbase.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 6ce7131..3be5cb0 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -27,7 +27,7 @@ import functools
 
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.profile import Profile
+from zielen.profile import Profile, ProfileConfigFile
 from zielen.exceptions import InputError, StatusError
 
 
@@ -86,10 +86,13 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
+                if not os.path.isfile(profile.cfg_path):
+                    continue
+                config_file = ProfileConfigFile(profile.cfg_path)
+                config_file.read()
+                local_path = os.path.expanduser(config_file.vals["LocalDir"])
+                if (os.path.exists(local_path)
+                        and os.path.samefile(input_path, local_path)):
                     return profile
         raise InputError(
             "argument is not a profile name or local directory path")
-- 
2.43.0


From cc213c176aefca81fc8813996bc43fcd30afdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 12/45] fix: call is_dir() when wiping the remote directory

---
 zielen/commands/reset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 3d4a280..c3ef5d4 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -84,7 +84,7 @@ class ResetCommand(Command):
                 self.remote_dir.close()
                 try:
                     for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir:
+                        if entry.is_dir(follow_symlinks=False):
                             shutil.rmtree(entry.path)
                         else:
                             os.remove(entry.path)
-- 
2.43.0


From f4c680ed5432521c2ead9d6a2720a064fa62e438 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 13/45] fix: don't follow symbolic links in the trash

---
 zielen/filelogic.py | 6 +++---
 zielen/fstools.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 20a53c2..79ccfb4 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -862,10 +862,10 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 78d38f3..0974352 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -236,9 +236,9 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
+    elif os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From 9c7595429d67e5961fb70ba75ebff60a0e406610 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 14/45] fix: forget excluded files that were deleted from the
 remote directory

---
 zielen/filelogic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 79ccfb4..3f09382 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -781,8 +781,12 @@ class FilesManager:
             paths: The relative paths of files to remove.
         """
         paths = set(paths)
-        paths -= self.profile.all_exclude_matches(self.local_dir.path)
-        self._rm_files(paths, self.local_dir.path)
+        excluded_paths = paths & self.profile.all_exclude_matches(
+            self.local_dir.path)
+        self._rm_files(paths - excluded_paths, self.local_dir.path)
+
+        self.profile.rm_paths(excluded_paths)
+        self.remote_dir.rm_paths(excluded_paths)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
-- 
2.43.0


From 20169f0b316e927970b82ab2e96872a700e8172f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 15/45] fix: don't follow symbolic links when looking up stats

---
 zielen/userdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/userdata.py b/zielen/userdata.py
index 38828fe..6fce556 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -74,7 +74,7 @@ class SyncDir:
                 full_path = os.path.join(self.path, path)
                 for entry, rel_path in self._sub_entries:
                     if entry.path == full_path:
-                        return entry.stat()
+                        return entry.stat(follow_symlinks=False)
                 return os.stat(full_path, follow_symlinks=False)
 
             output = FactoryDict(lookup_stat)
-- 
2.43.0


From b6cae10e423335dfe072c521393de3483ca42233 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 16/45] fix: transfer directories themselves when given their
 paths

---
 zielen/fstools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 0974352..9e8dcfe 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,11 +67,12 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
+            rel_paths.add(path)
             try:
                 for entry in scan_tree(os.path.join(source, path)):
                     rel_paths.add(os.path.relpath(entry.path, source))
             except NotADirectoryError:
-                rel_paths.add(path)
+                pass
 
     if exclude is not None:
         rel_paths -= set(exclude)
-- 
2.43.0


From 1a39e5715078ebcaf8448499827319f71d6d8302 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 17/45] fix: don't follow symbolic links to directories when
 transferring

---
 zielen/fstools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 9e8dcfe..065faab 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -68,6 +68,9 @@ def transfer_tree(
         rel_paths = set()
         for path in files:
             rel_paths.add(path)
+            if os.path.islink(os.path.join(source, path)):
+                # Don't follow symbolic links to directories.
+                continue
             try:
                 for entry in scan_tree(os.path.join(source, path)):
                     rel_paths.add(os.path.relpath(entry.path, source))
-- 
2.43.0


From 11ae6e836052aead9f93a6be7b8f764fd3c05ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 18/45] fix: don't fail on dangling symbolic links when showing
 progress

---
 zielen/fstools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 065faab..b4fe02f 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -90,7 +90,8 @@ def transfer_tree(
     dest_paths = [os.path.join(dest, path) for path in rel_paths]
 
     if use_bar:
-        source_sizes = {path: os.stat(path).st_size for path in source_paths}
+        source_sizes = {
+            path: os.lstat(path).st_size for path in source_paths}
         total_source_size = sum(source_sizes.values())
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
-- 
2.43.0


From 745155a3dfe9ffa0f177a8f7616ffa8007c8d76e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 19/45] fix: ignore missing files when transferring

---
 zielen/fstools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index b4fe02f..0d797b1 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,6 +67,9 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
+            if not os.path.lexists(os.path.join(source, path)):
+                # Missing files are ignored.
+                continue
             rel_paths.add(path)
             if os.path.islink(os.path.join(source, path)):
                 # Don't follow symbolic links to directories.
-- 
2.43.0


From 5214560378ddc04bd05aa97fcf1a3564584a3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 20/45] fix: never leave a destination file missing, partial or
 written through a link

---
 zielen/fstools.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 0d797b1..3c307b9 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -24,7 +24,7 @@ import shutil
 import tempfile
 from typing import Iterable, Optional, Set
 
-from zielen.utils import shell_cmd, ProgressBar
+from zielen.utils import secure_string, shell_cmd, ProgressBar
 from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
@@ -108,16 +108,25 @@ def transfer_tree(
             pass
 
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
-        try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except IsADirectoryError:
+        if os.path.isdir(source_path) and not os.path.islink(source_path):
             os.makedirs(dest_path, exist_ok=True)
-        except PermissionError:
-            raise FileTransferError("permission denied: {0}".format(
-                os.path.relpath(source_path, source)))
+        else:
+            # Copy the file to a temporary path first so that an existing file
+            # is never removed, truncated or written to through a symbolic
+            # link.
+            temp_path = os.path.join(
+                os.path.dirname(dest_path), ".zielen-" + secure_string(8))
+            try:
+                shutil.copy2(source_path, temp_path, follow_symlinks=False)
+                os.replace(temp_path, dest_path)
+            except PermissionError:
+                raise FileTransferError("permission denied: {0}".format(
+                    os.path.relpath(source_path, source)))
+            finally:
+                try:
+                    os.remove(temp_path)
+                except OSError:
+                    pass
 
         if use_bar:
             transferred_size += source_sizes[source_path]
-- 
2.43.0


From 00839f5878a871a7d63ba569531ae0114b4d1c1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 21/45] fix: don't copy excluded files and unsafe links inside
 new directories

---
 zielen/filelogic.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 3f09382..ae80047 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -421,11 +421,24 @@ class FilesManager:
         Raises:
             RemoteError: The remote directory is unmounted.
         """
+        update_paths = set(update_paths)
+
+        # New directories may contain files that should not be copied.
+        unsafe_symlinks = {
+            link_path for link_path in self.local_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if is_unsafe_symlink(
+                os.path.join(self.local_dir.path, link_path),
+                self.local_dir.path)}
+        excluded_paths = unsafe_symlinks | self.profile.all_exclude_matches(
+            self.local_dir.path)
+
         # Copy modified local files to the remote directory.
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths, exclude=excluded_paths - update_paths,
+                message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From 85146a7ac22708119b8fa5f7af0cba891481fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 22/45] fix: keep files that were modified in one directory and
 deleted in the other

---
 zielen/commands/sync.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..ffe51d4 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -88,10 +88,11 @@ class SyncCommand(Command):
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
-        # Sync deletions between the local and remote directories.
-        fm.rm_local_files(del_paths.local)
-        fm.rm_remote_files(del_paths.remote)
-        fm.trash_files(del_paths.trash)
+        # Sync deletions between the local and remote directories. Files that
+        # were deleted in one directory and modified in the other are kept.
+        fm.rm_local_files(del_paths.local - mod_paths.local)
+        fm.rm_remote_files(del_paths.remote - mod_paths.remote)
+        fm.trash_files(del_paths.trash - mod_paths.remote)
 
         # Handle syncing conflicts.
         updated_paths = fm.handle_conflicts(
-- 
2.43.0


From 41136d6759339c93bb8308d93e9885e148902ade Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 23/45] fix: clean up the trash when the cleanup period is zero

---
 zielen/commands/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index ffe51d4..c24fe50 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -132,7 +132,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-- 
2.43.0


From 3dfa69e6a7c888e5e010f8a9f81525d69f2ef8fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 24/45] fix: don't mark files that were just copied as not
 being local

---
 zielen/filelogic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ae80047..f3780f6 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -406,11 +406,12 @@ class FilesManager:
                 raise
 
         # Update the database with information about which paths are being
-        # kept in the local directory.
+        # kept in the local directory. Paths that were copied after they were
+        # symlinked are kept in the local directory.
+        self.profile.update_paths(nonlocal_paths, local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
-- 
2.43.0


From 06903bf68dc749b8d4533a4f542f4150b94cc83a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 25/45] fix: inflate the priority of the first files in an
 empty profile

---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index a451ca4..b90323a 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -642,7 +642,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From ef61ff192df87a437be256f9b715f96871ced829 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 26/45] fix: write the info file atomically

---
 zielen/containerbase.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 7da1637..d76ad66 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -108,9 +108,15 @@ class JSONFile:
             self.vals = json.load(file)
 
     def write(self) -> None:
-        """Write object to a file."""
-        with open(self.path, "w") as file:
+        """Write object to a file.
+
+        The file is replaced atomically so that it can't be read while it is
+        partially written and so that it isn't corrupted by an interruption.
+        """
+        temp_path = self.path + ".tmp"
+        with open(temp_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(temp_path, self.path)
 
 
 class SyncDBFile:
-- 
2.43.0


From dcac823f1e8632555e1c66dd2ca4b10b918d06ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 27/45] fix: don't delete local files when the remote directory
 was unmounted

---
 zielen/filelogic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index f3780f6..d976fd1 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -683,6 +683,11 @@ class FilesManager:
         remote_paths = self.remote_dir.scan_paths().keys()
         known_paths = self.profile.get_paths().keys()
 
+        # If the remote directory was unmounted before it was scanned, files
+        # that are missing from it have not been deleted.
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
+
         # Compute files that need to be deleted, not including the files
         # under selected directories.
         local_del_paths = known_paths - remote_paths
-- 
2.43.0


From f4509ae4bf37ae1d0976b0c04013dc910a8ddf43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 28/45] fix: report an unmounted remote directory instead of
 crashing

---
 zielen/commands/emptytrash.py | 4 ++++
 zielen/commands/reset.py      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index 89cf782..09baed9 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -20,6 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import shutil
 
+from zielen.exceptions import RemoteError
 from zielen.commandbase import Command, unlock
 
 
@@ -38,6 +39,9 @@ class EmptyTrashCommand(Command):
         """Run the command."""
         self.setup_profile()
 
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
+
         files_deleted = 0
         for path in os.scandir(self.remote_dir.trash_dir):
             try:
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index c3ef5d4..017284e 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -51,6 +51,9 @@ class ResetCommand(Command):
         self.setup_profile()
 
         if not self.no_retrieve:
+            if not os.path.isdir(self.remote_dir.util_dir):
+                raise RemoteError("the remote directory could not be found")
+
             # Check if there is enough space locally to accommodate remote
             # files.
             if self.remote_dir.disk_usage() > self.local_dir.space_avail():
-- 
2.43.0


From 6b98f78084e186b1d0244b17d6636bc582c748ad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 29/45] fix: don't replace never-synced excluded files with
 remote ones

---
 zielen/commands/sync.py |  3 ++-
 zielen/filelogic.py     | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index c24fe50..029e0e1 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -115,7 +115,8 @@ class SyncCommand(Command):
         # Calculate which excluded files are still in the remote directory.
         remote_excluded_files = (
             self.profile.all_exclude_matches(self.local_dir.path)
-            & self.remote_dir.scan_paths().keys())
+            & self.remote_dir.scan_paths().keys()
+            & self.profile.get_paths().keys())
 
         # Decide which files and directories to keep in the local directory.
         remaining_space = self.profile.storage_limit - fm.get_excluded_size()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index d976fd1..9540ce7 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -613,16 +613,20 @@ class FilesManager:
             that have been added since the last sync: local ones and
             remote ones.
         """
+        excluded_paths = self.profile.all_exclude_matches(self.local_dir.path)
+        local_paths = self.local_dir.scan_paths().keys()
         new_local_paths = {
-            path for path in self.local_dir.scan_paths().keys()
+            path for path in local_paths
             if not self.profile.get_path_info(path)
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
-        new_local_paths -= self.profile.all_exclude_matches(
-            self.local_dir.path)
+        new_local_paths -= excluded_paths
+        # A file that was excluded before it was ever synced has nothing to do
+        # with a remote file of the same name, which must not replace it.
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
-            if not self.profile.get_path_info(path)}
+            if not self.profile.get_path_info(path)
+            and not (path in excluded_paths and path in local_paths)}
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -661,8 +665,10 @@ class FilesManager:
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
-        remote_mod_paths |= self.remote_dir.get_paths(
-            directory=False, min_lastsync=last_sync).keys()
+        remote_mod_paths |= (
+            self.remote_dir.get_paths(
+                directory=False, min_lastsync=last_sync).keys()
+            & self.profile.get_paths().keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
-- 
2.43.0


From 583c8df403d0156214e4848bc15e546cfa769e47 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 30/45] fix: don't count files missing from the remote
 directory as modified there

---
 zielen/filelogic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9540ce7..59629b1 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -665,10 +665,12 @@ class FilesManager:
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
+        # A file that another client updated may have been deleted since.
         remote_mod_paths |= (
             self.remote_dir.get_paths(
                 directory=False, min_lastsync=last_sync).keys()
-            & self.profile.get_paths().keys())
+            & self.profile.get_paths().keys()
+            & self.remote_dir.scan_paths().keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
-- 
2.43.0


From 5103d2e879bcf65a9924ac5c3fd9ea44441da8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 31/45] fix: don't replace never-synced excluded files in
 selected directories

---
 zielen/filelogic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 59629b1..d0dc0c3 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -389,6 +389,11 @@ class FilesManager:
                     # that weren't deleted.
                     pass
 
+        # Files that were excluded before they were ever synced must not be
+        # replaced by remote files in the selected directories.
+        excluded_paths = self.profile.all_exclude_matches(
+            self.local_dir.path) - self.profile.get_paths().keys()
+
         try:
             nonlocal_paths = symlink_tree(
                 self.remote_dir.path, self.local_dir.path,
@@ -397,7 +402,7 @@ class FilesManager:
 
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-                files=update_paths,
+                files=update_paths, exclude=excluded_paths,
                 message="Updating local files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
-- 
2.43.0


From fd68408477ccb627bf7facad39586e33dddb3974 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 32/45] fix: don't replace local files when resuming 'init
 --add-remote'

---
 zielen/filelogic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index d0dc0c3..b917faf 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -515,7 +515,13 @@ class FilesManager:
                 os.path.join(self.remote_dir.path, link_path),
                 self.remote_dir.path)}
 
-        self._setup_dir(unsafe_symlinks)
+        # If the initialization was interrupted, files may have been added to
+        # the local directory since. They are not replaced with symlinks but
+        # left for the first sync to handle.
+        local_files = self.local_dir.scan_paths(
+            dirs=False, symlinks=False).keys()
+
+        self._setup_dir(unsafe_symlinks | local_files)
 
     def handle_conflicts(
             self, local_paths: Iterable[str], remote_paths: Iterable[str]
-- 
2.43.0


From 9367cec6a12c10d401b19b63e3e7d4e6f8caec20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 33/45] fix: don't crash when a conflicting file does not stay
 local

---
 zielen/filelogic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index b917faf..2e4e0a9 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -380,6 +380,9 @@ class FilesManager:
                 continue
             try:
                 os.remove(full_stale_path)
+            except FileNotFoundError:
+                # The file was renamed because of a sync conflict.
+                pass
             except IsADirectoryError:
                 try:
                     os.rmdir(full_stale_path)
-- 
2.43.0


From ed745d3b83d4b94d0602c1ecb0093ab1fb9939fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 34/45] fix: reset removed links that lead out of the remote
 directory through '..'

---
 zielen/commands/reset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 017284e..3733756 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -104,7 +104,7 @@ class ResetCommand(Command):
             if not os.path.isabs(link_dest):
                 link_dest = os.path.join(os.path.dirname(full_path), link_dest)
             if os.path.commonpath([
-                    link_dest,
+                    os.path.normpath(link_dest),
                     self.remote_dir.path]) == self.remote_dir.path:
                 os.remove(full_path)
 
-- 
2.43.0


From 2468c7c2e58f4f8b613646d1855e7b26a86106b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 35/45] fix: reject storage limits with non-ASCII letters in
 the unit

---
 zielen/profile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index b90323a..347fd4c 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -926,7 +926,10 @@ class ProfileConfigFile(ConfigFile):
             if not re.search("^~?/", value):
                 return "must be an absolute path"
         elif key == "StorageLimit":
-            if not re.search(r"^[0-9]+\s*[KMG](B|iB)?$", value, re.IGNORECASE):
+            # Without re.ASCII, this would match some non-ASCII letters.
+            if not re.search(
+                    r"^[0-9]+\s*[KMG](B|iB)?$", value,
+                    re.IGNORECASE | re.ASCII):
                 return "must be an integer followed by a unit (e.g. 10GB)"
         elif key == "SyncInterval":
             if not re.search("^[0-9]+$", value):
-- 
2.43.0


From 7cbe9ff64df58822d578c9e4666ab5b0668e79dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 36/45] fix: use a separate temporary file per process for the
 info file

---
 zielen/containerbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index d76ad66..e281cc5 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -112,8 +112,10 @@ class JSONFile:
 
         The file is replaced atomically so that it can't be read while it is
         partially written and so that it isn't corrupted by an interruption.
+        The daemon and a sync can write to the file at the same time, so each
+        process uses its own temporary file.
         """
-        temp_path = self.path + ".tmp"
+        temp_path = "{}.{}.tmp".format(self.path, os.getpid())
         with open(temp_path, "w") as file:
             json.dump(self.vals, file, indent=4)
         os.replace(temp_path, self.path)
-- 
2.43.0


From 10f71cf5a1ca1209b87b4219b2994727b7614603 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 37/45] fix: exclude files if the directory name contains
 globbing characters

---
 zielen/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 347fd4c..1742351 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -361,10 +361,11 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(
+                    glob.escape(start_path), line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(glob.escape(start_path), "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
-- 
2.43.0


From 0111dc0876296c6d6dfa63f794ac1d44715c59aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 38/45] fix: don't crash when listing profiles with missing
 options

---
 zielen/commands/list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zielen/commands/list.py b/zielen/commands/list.py
index c7bf200..092ff91 100644
--- a/zielen/commands/list.py
+++ b/zielen/commands/list.py
@@ -40,10 +40,11 @@ class ListCommand(Command):
             config_file.read()
             config_files.append((name, config_file))
 
+        # Options that are missing from the config file don't have a value.
         table_data = [(
-                name, config_file.vals["LocalDir"],
-                config_file.vals["RemoteDir"],
-                config_file.vals["StorageLimit"])
+                name, config_file.vals["LocalDir"] or "",
+                config_file.vals["RemoteDir"] or "",
+                config_file.vals["StorageLimit"] or "")
             for name, config_file in config_files]
         table_data.insert(0, (
             "Profile", "Local Directory", "Remote Directory", "Limit"))
-- 
2.43.0


From dfe66efd758ce2d8bfed7ffe48821169d066258a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 39/45] fix: ignore inotify events without a path instead of
 stopping the daemon

---
 zielen/daemon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index 766ba73..93e5c08 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -101,11 +101,16 @@ class Daemon(Command):
             accessed_paths = []
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
+                if event.mask & pyinotify.IN_Q_OVERFLOW:
+                    # This event doesn't have a path.
+                    continue
                 for watch_path in watch_paths:
                     if os.path.commonpath([
                             event.pathname, watch_path]) == watch_path:
                         rel_path = os.path.relpath(event.pathname, watch_path)
                         break
+                else:
+                    continue
 
                 if not event.dir and self.profile.get_path_info(rel_path):
                     # The file is in the local database and is not a directory.
-- 
2.43.0


From 2e3e881fa5c9a3be3e07e4bb49284771e471189c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 40/45] fix: don't reset the time of a sync that finishes while
 the daemon writes

---
 zielen/daemon.py  | 17 ++++++++++-------
 zielen/profile.py |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index 93e5c08..886a951 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -148,8 +148,10 @@ class Daemon(Command):
                 self._adjust()
                 self.profile.increment(
                     deduplicated_paths, self.INCREMENT_AMOUNT)
+                # Don't write the info file, because that could reset the
+                # values of a sync that finishes at the same time.
+                self.profile.commit()
                 self.profile.read()
-                self.profile.write()
             except sqlite3.OperationalError:
                 continue
             else:
@@ -160,18 +162,19 @@ class Daemon(Command):
     def _adjust(self) -> None:
         """Adjust the priority values in the database at regular intervals."""
         if time.time() >= self.profile.last_adjust + self.ADJUST_INTERVAL:
-            # This is necessary because a sync may have occurred since
-            # the last adjustment, which updates a value in the info
-            # file. If we don't read the info file before writing to it,
-            # that value will get reset.
-            self.profile.read()
-
             # Use the formula for half-life to calculate the constant to
             # multiply each priority value by.
             half_life = self.profile.priority_half_life
             adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)
 
             self.profile.adjust_all(adjust_constant)
+
+            # This is necessary because a sync may have occurred since
+            # the last adjustment, which updates a value in the info
+            # file. If we don't read the info file before writing to it,
+            # that value will get reset. This can't be done earlier because
+            # a sync may finish while waiting to change the database.
+            self.profile.read()
             self.profile.last_adjust = time.time()
             self.profile.write()
 
diff --git a/zielen/profile.py b/zielen/profile.py
index 1742351..1300991 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -81,6 +81,7 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.commit = self._db_file.commit
 
     def read(self) -> None:
         """Load data from persistent storage."""
-- 
2.43.0


From 9a6646a0097919b64d3edaaaa8af27eb22641acf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 41/45] fix: skip profiles without a local directory when
 looking one up by path

---
 zielen/commandbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 3be5cb0..eb55cb1 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -90,6 +90,8 @@ class Command(abc.ABC):
                     continue
                 config_file = ProfileConfigFile(profile.cfg_path)
                 config_file.read()
+                if not config_file.vals["LocalDir"]:
+                    continue
                 local_path = os.path.expanduser(config_file.vals["LocalDir"])
                 if (os.path.exists(local_path)
                         and os.path.samefile(input_path, local_path)):
-- 
2.43.0


From 630669b10247be5bcada90bac9801d5af5116e7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 42/45] fix: replace configuration values at once, as the
 daemon's threads share them

---
 zielen/containerbase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index e281cc5..cc1bcf4 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -49,8 +49,9 @@ class ConfigFile:
     def read(self) -> None:
         """Parse file for key-value pairs and save in a dictionary."""
         # Options may have been removed from the file since it was last read.
-        self.raw_vals.clear()
-
+        # The values are replaced all at once because the daemon reads them
+        # from another thread at the same time.
+        raw_vals = {}
         try:
             with open(self.path) as file:
                 for line in file:
@@ -58,9 +59,10 @@ class ConfigFile:
                     if (not self.COMMENT_REGEX.search(line)
                             and self.SEPARATOR in line):
                         key, value = line.partition(self.SEPARATOR)[::2]
-                        self.raw_vals[key.strip()] = value.strip()
+                        raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
+        self.raw_vals = raw_vals
 
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
-- 
2.43.0


From 88e7f2d3bb5d5f455c4a286375b806a7cbddb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 43/45] fix: sync when a path that was deleted locally is not
 in the remote database

---
 zielen/filelogic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 2e4e0a9..3b48b4b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -720,7 +720,7 @@ class FilesManager:
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
             sub_paths = set(self.remote_dir.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             remote_del_paths -= sub_paths
 
         # Compute files to be moved to the trash.
-- 
2.43.0


From 788807d2614b3583c5baffac67c01d05a3663194 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 44/45] fix: forget remote files that were deleted before this
 client synced them

---
 zielen/commands/sync.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 029e0e1..989cc48 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -77,6 +77,13 @@ class SyncCommand(Command):
         del_paths = fm.compute_deleted()
         mod_paths = fm.compute_modified()
 
+        # Forget files that were deleted from the remote directory before this
+        # client has ever synced them.
+        self.remote_dir.rm_paths(
+            self.remote_dir.get_paths().keys()
+            - self.remote_dir.scan_paths().keys()
+            - self.profile.get_paths().keys())
+
         # Add new files to both databases, and inflate the priority of new
         # local files.
         new_local_files = (new_paths.local - dir_paths)
-- 
2.43.0


From ca9e09b581b55223d66a1f5fc6c126a0157651a5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 45/45] fix: never rename a conflicting file to the name of an
 existing file

---
 zielen/filelogic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 3b48b4b..ebd102b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -563,6 +563,9 @@ class FilesManager:
 
         for path in conflict_paths:
             new_path = timestamp_path(path, keyword="conflict")
+            # Another client may have used this name within the same second.
+            while new_path in local_mtimes or new_path in remote_mtimes:
+                new_path = timestamp_path(new_path, keyword="conflict")
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
-- 
2.43.0

