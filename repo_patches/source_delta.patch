From b584d891ed7dae1229038aa15bc04d46bf905146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 01/65] fix: save workspaces having files with times before
 1980 or after 2107

ZIP can not represent those, and save crashed on them; let zipfile clamp
the stored file times (they are not part of the bead's content).
---
 bead/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..835e91e 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -253,6 +253,8 @@ class _ZipCreator:
                 mode='w',
                 compression=compression,
                 allowZip64=True,
+                # file times outside of what ZIP can represent are not a problem
+                strict_timestamps=False,
             ) as self.zipfile:
                 self.zipfile.comment = comment.encode('utf-8')
                 self.add_data(workspace)
-- 
2.43.0


From dbed7a711954f7fb565d104cdef4b57436bc8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 02/65] fix: remove partial archive when save is interrupted

Ctrl-C during save left a partial, but readable zip file in the box.
---
 bead/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 835e91e..335e716 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -117,7 +117,8 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
-        except (RuntimeError, Exception):
+        except BaseException:
+            # includes KeyboardInterrupt: never leave a partial archive behind
             if zipfilename.exists():
                 zipfilename.unlink()
             raise
-- 
2.43.0


From c2fe04a8af469f6f44191db60ad724cb0ed73bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 03/65] fix: save a verifiable bead even if a file changes
 during save

The hash in the manifest was calculated from a second read of the file,
so a file changing between the two reads resulted in an invalid bead.
---
 bead/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 335e716..5408ad0 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -216,9 +216,11 @@ class _ZipCreator:
     def add_file(self, path, zip_path: str):
         assert self.zipfile
         self.zipfile.write(path, zip_path)
+        # hash what was archived: the file itself might have been changed since
+        info = self.zipfile.getinfo(zip_path)
         self.add_hash(
             zip_path,
-            securehash.file(open(path, 'rb'), os.path.getsize(path)))
+            securehash.file(self.zipfile.open(info), info.file_size))
 
     def add_path(self, path, zip_path):
         if os.path.isdir(path):
-- 
2.43.0


From 826ac3a2292db09e433a861c911e2a389b087bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 04/65] fix: find beads by name in boxes whatever their name
 and file name is

Names with glob pattern characters (e.g. 'g[1]') were not found or crashed
the search, while archives with a short (or without) timestamp in their file
name were listed, but could not be found by name or resolved.
---
 bead/box_rawfs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..643fe93 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,3 +1,4 @@
+import glob
 from typing import Iterable
 from typing import Iterator
 
@@ -56,11 +57,9 @@ class RawFilesystemResolver:
 
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
-        if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
-        else:
-            pattern = '*.zip'
-        return self.box_directory.glob(pattern)
+        # the name is literal, and whatever follows it (usually a timestamp) is optional
+        # - the bead's actual name is to be checked later
+        return self.box_directory.glob(glob.escape(bead_name) + '*.zip')
 
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         """Retrieve beads matching conditions by scanning filesystem."""
-- 
2.43.0


From b79ddd9bcb0abffba03ea63cf9fe54823edb5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 05/65] fix: report unreadable and malformed archives as
 invalid

---
 bead/ziparchive.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..afef882 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -58,11 +58,17 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
-        if not all(self._checks()):
-            raise InvalidArchive
+        try:
+            is_valid = all(self._checks())
+        except Exception as e:
+            # damaged or malformed in a way, that it can not even be checked
+            raise InvalidArchive(self.archive_filename) from e
+        if not is_valid:
+            raise InvalidArchive(self.archive_filename)
 
     def _checks(self):
         yield self._has_well_formed_meta()
+        yield self._has_well_formed_references()
         yield self._bead_creation_time_is_in_the_past()
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
@@ -71,6 +77,14 @@ class ZipArchive(Archive):
         meta = self.meta
         return all(key in meta for key in META_KEYS)
 
+    def _has_well_formed_references(self):
+        references = [self, *self.inputs]
+        for reference in references:
+            reference.freeze_time  # raises an error if malformed
+        return all(
+            isinstance(reference.kind, str) and isinstance(reference.content_id, str)
+            for reference in references)
+
     def _bead_creation_time_is_in_the_past(self):
         read_time = timestamp.time_from_timestamp
         now = read_time(timestamp.timestamp())
-- 
2.43.0


From d304a63f02f5f58e212c8f0421208e9f57ff5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 06/65] fix: skip malformed archives in boxes instead of
 failing

---
 bead/box_rawfs.py  | 25 +++++++++++++++++--------
 bead/ziparchive.py | 10 ++++++++--
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 643fe93..29325a4 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -97,14 +97,23 @@ class RawFilesystemResolver:
                 yield archive
 
     def _bead_from_archive(self, archive: Archive) -> Bead:
-        """Create a Bead instance from Archive metadata."""
-        bead = Bead()
-        bead.kind = archive.kind
-        bead.name = archive.name
-        bead.inputs = archive.inputs
-        bead.content_id = archive.content_id
-        bead.freeze_time_str = archive.freeze_time_str
-        bead.box_name = archive.box_name
+        """
+        Create a Bead instance from Archive metadata.
+
+        Raises InvalidArchive, if the metadata is malformed.
+        """
+        try:
+            bead = Bead()
+            bead.kind = archive.kind
+            bead.name = archive.name
+            bead.inputs = archive.inputs
+            bead.content_id = archive.content_id
+            bead.freeze_time_str = archive.freeze_time_str
+            bead.box_name = archive.box_name
+            for timed in (bead, *bead.inputs):
+                timed.freeze_time  # raises an error if malformed
+        except Exception as e:
+            raise InvalidArchive(archive.location) from e
         return bead
 
     def get_file_path(self, name: str, content_id: str) -> Path:
diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index afef882..c830981 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -30,7 +30,10 @@ class ZipArchive(Archive):
     def __init__(self, filename, box_name=''):
         self.archive_filename = filename
         self.box_name = box_name
-        self.name = bead_name_from_file_path(filename)
+        try:
+            self.name = bead_name_from_file_path(filename)
+        except ValueError as e:
+            raise InvalidArchive(filename) from e
         self._meta = self._load_meta()
         self._content_id = None
 
@@ -126,7 +129,10 @@ class ZipArchive(Archive):
     @property
     def content_id(self):
         if self._content_id is None:
-            self._content_id = self.calculate_content_id()
+            try:
+                self._content_id = self.calculate_content_id()
+            except Exception as e:
+                raise InvalidArchive(self.archive_filename) from e
         return self._content_id
 
     def calculate_content_id(self):
-- 
2.43.0


From 5f72a1bf7a2f38a90dfaf2a288a8ce2153b3d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 07/65] fix: report beads found by a stale index or search as
 not found

---
 bead/box.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..072bfc2 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -355,7 +355,7 @@ def resolve(boxes, bead: Bead) -> Archive:
 
     Raises:
         LookupError: If no box with matching name is found
-        ValueError: If the bead cannot be resolved in the found box
+            or the bead cannot be resolved in the found box
     """
     for box in boxes:
         if box.name == bead.box_name:
@@ -426,8 +426,12 @@ class Box:
         if not file_path.exists():
             raise LookupError(f"Archive file not found: {file_path}")
             
-        archive = ZipArchive(file_path, self.name)
-        self._validate_archive_matches_bead(archive, bead)
+        try:
+            archive = ZipArchive(file_path, self.name)
+            self._validate_archive_matches_bead(archive, bead)
+        except (InvalidArchive, ValueError) as e:
+            # the file was damaged or replaced since the bead was found in it
+            raise LookupError(f"Bead '{bead.name}' is not in {file_path} any more") from e
         return archive
     
     def _validate_archive_matches_bead(self, archive: Archive, bead: Bead):
-- 
2.43.0


From 88f25a67d0716433ff052fa9bffde0478e535df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 08/65] fix: refuse unknown beads and files that are not beads
 with a message

---
 bead/ziparchive.py | 18 ++++++++++++++++--
 bead_cli/common.py |  7 ++++++-
 bead_cli/input.py  | 14 ++++++++++----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index c830981..c3412bd 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -61,17 +61,31 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
+        self._validate(self._checks())
+
+    def validate_meta(self):
+        '''
+        verify, that the metadata is complete and well formed
+
+        (a quick subset of what `validate` does)
+        '''
+        self._validate(self._meta_checks())
+
+    def _validate(self, checks):
         try:
-            is_valid = all(self._checks())
+            is_valid = all(checks)
         except Exception as e:
             # damaged or malformed in a way, that it can not even be checked
             raise InvalidArchive(self.archive_filename) from e
         if not is_valid:
             raise InvalidArchive(self.archive_filename)
 
-    def _checks(self):
+    def _meta_checks(self):
         yield self._has_well_formed_meta()
         yield self._has_well_formed_references()
+
+    def _checks(self):
+        yield from self._meta_checks()
         yield self._bead_creation_time_is_in_the_past()
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
diff --git a/bead_cli/common.py b/bead_cli/common.py
index 41d9491..f4bfe8a 100644
--- a/bead_cli/common.py
+++ b/bead_cli/common.py
@@ -97,7 +97,12 @@ BEAD_REF_BASE = arg_bead_ref_base(nargs=None, default=None)
 def resolve_bead(env, bead_ref_base, time) -> Archive:
     # prefer exact file name over box search
     if os.path.isfile(bead_ref_base):
-        return ZipArchive(bead_ref_base)
+        try:
+            archive = ZipArchive(bead_ref_base)
+            archive.validate_meta()
+        except InvalidArchive:
+            die(f'Not a bead or damaged: {bead_ref_base}')
+        return archive
 
     # not a file - try box search
     boxes = env.get_boxes()
diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..f3b3cb2 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -172,7 +172,10 @@ class CmdUpdate(Command):
             # path or new bead by name - same as input add, edit
             if args.bead_offset:
                 die('--prev/--next is not supported when an input is replaced with another bead')
-            archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            try:
+                archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            except LookupError:
+                die(f'Not a known bead name: {bead_ref_base}')
         if archive:
             _update_input(workspace, input, archive)
         else:
@@ -180,9 +183,12 @@ class CmdUpdate(Command):
 
 
 def _update_input(workspace, input, archive):
-    if workspace.is_loaded(input.name) and input.content_id == archive.content_id:
-        assert input.kind == archive.kind
-        assert input.freeze_time == archive.freeze_time
+    is_requested_version = (
+        input.content_id == archive.content_id
+        # these could differ only if the archive is damaged
+        and input.kind == archive.kind
+        and input.freeze_time == archive.freeze_time)
+    if workspace.is_loaded(input.name) and is_requested_version:
         print(
             f'Skipping update of {input.name}:'
             + f' it is already at requested version ({input.freeze_time})')
-- 
2.43.0


From 3d50d2e0ed2a83ece714eb753bd35078926fe043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 09/65] fix: use index of boxes having URI special characters
 in their path

---
 bead/box_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..79c689a 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -5,6 +5,7 @@ SQLite-based index for bead storage and retrieval.
 import sqlite3
 from contextlib import closing
 from pathlib import Path
+from urllib.parse import quote
 
 from .bead import Bead
 from .box_query import QueryCondition
@@ -26,7 +27,8 @@ def create_update_connection(index_path: Path):
 
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
+    # the path is to be quoted as it might contain characters special in URIs
+    conn = sqlite3.connect(f"file:{quote(bytes(index_path))}?mode=ro", uri=True)
     return closing(conn)
 
 
@@ -229,7 +231,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with create_query_connection(index_path):
             pass
         return True
     except Exception:
-- 
2.43.0


From c556d22898764354d9547f30243a4d02ae47889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 10/65] fix: refuse to create or save beads that could not be
 used because of their name

---
 bead/box.py           | 3 +++
 bead_cli/workspace.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/bead/box.py b/bead/box.py
index 072bfc2..ebcceef 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -23,6 +23,7 @@ from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
@@ -450,6 +451,8 @@ class Box:
             raise BoxError(f'Box "{self.name}": directory {self.directory} does not exist')
         if not self.directory.is_dir():
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
+        if not BeadName.is_wellformed(workspace.name):
+            raise BoxError(f'"{workspace.name}" is not a valid bead name')
         
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 98de29d..4eca448 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -5,6 +5,7 @@ from bead import layouts
 from bead import tech
 from bead.exceptions import BoxError
 from bead.exceptions import InvalidArchive
+from bead.meta import BeadName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -37,6 +38,7 @@ def assert_may_be_valid_name(name):
         and '/' not in name
         and '\\' not in name
         and ':' not in name
+        and BeadName.is_wellformed(name)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
-- 
2.43.0


From 73961b8edf3652b38c7c8069dadd2e2e0f64ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 11/65] fix: refuse malformed input names when adding inputs

---
 bead_cli/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index f3b3cb2..3d2632e 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -1,9 +1,9 @@
-import os.path
 from typing import TYPE_CHECKING
 
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +67,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
-- 
2.43.0


From 9962c7a03e3cd242c2a453366f83f45ee8c1f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 12/65] fix: refuse to edit beads in workspaces that could not
 be saved because of their name

---
 bead_cli/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 4eca448..5e05d47 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -155,6 +155,8 @@ class CmdEdit(Command):
         else:
             workspace = args.workspace
 
+        if not BeadName.is_wellformed(workspace.name):
+            die(f'Invalid name "{workspace.name}"')
         if os.path.exists(workspace.directory):
             die(f'Workspace "{workspace.name}" directory already exists'
                 ' - do you have an old checkout?')
-- 
2.43.0


From 21066135fbcdb9a66d67df9ff62b09d7a9353349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 13/65] fix: write box registry and workspace metadata
 atomically

---
 bead/tech/persistence.py | 17 +++++++++++++++--
 bead/workspace.py        |  4 +---
 bead_cli/environment.py  |  3 +--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..3ddc67c 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -4,6 +4,8 @@ Functions to persist python structures or load them.
 
 import io
 import json
+import os
+import shutil
 
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
@@ -55,5 +57,16 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
-        dump(content, f)
+    # never have a partially written file under path, not even when killed
+    path = os.path.realpath(path)
+    temp_path = f'{path}.{os.getpid()}.tmp'
+    try:
+        with open(temp_path, 'w') as f:
+            dump(content, f)
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.unlink(temp_path)
+        raise
diff --git a/bead/workspace.py b/bead/workspace.py
index 5408ad0..df91cfb 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -94,9 +94,7 @@ class Workspace(Bead):
         bead_meta = {
             meta.KIND: kind,
             meta.INPUTS: {}}
-        fs.write_file(
-            dir / layouts.Workspace.BEAD_META,
-            persistence.dumps(bead_meta))
+        self.meta = bead_meta
 
         assert self.is_valid
 
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From 3c38d70eb806b69e4929659ff6764fb6fc62a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 14/65] fix: never leave partially loaded or unloaded data
 visible as a loaded input

---
 bead/workspace.py | 54 ++++++++++++++++++++++++++++++++++++++---------
 bead_cli/input.py |  3 +++
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index df91cfb..71d0c78 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -142,8 +142,7 @@ class Workspace(Bead):
 
     def delete_input(self, input_nick):
         assert self.has_input(input_nick)
-        if self.is_loaded(input_nick):
-            self.unload(input_nick)
+        self.unload(input_nick)
         m = self.meta
         del m[meta.INPUTS][input_nick]
         self.meta = m
@@ -152,28 +151,63 @@ class Workspace(Bead):
         '''
         Make output data files in archive available under input directory
         '''
+        self._remove_leftovers(input_nick)
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
         try:
-            self.add_input(
-                input_nick,
-                archive.kind, archive.content_id, archive.freeze_time_str)
-            destination_dir = input_dir / input_nick
-            archive.unpack_data_to(destination_dir)
-            for f in fs.all_subpaths(destination_dir):
-                fs.make_readonly(f)
+            # partially extracted data must not be visible as a loaded input
+            loading_dir = self._staging_directory('loading', input_nick)
+            try:
+                archive.unpack_data_to(loading_dir)
+                for f in fs.all_subpaths(loading_dir):
+                    fs.make_readonly(f)
+                self.add_input(
+                    input_nick,
+                    archive.kind, archive.content_id, archive.freeze_time_str)
+                loading_dir.rename(input_dir / input_nick)
+            except BaseException:
+                self._remove_leftovers(input_nick)
+                raise
         finally:
             fs.make_readonly(input_dir)
 
+    def _staging_directory(self, purpose, input_nick):
+        '''
+        Directory for data that is being loaded or unloaded.
+        '''
+        # can not collide with inputs, as their names can not contain `__`
+        id = securehash.bytes(os.fsencode(input_nick))[:16]
+        return self.directory / layouts.Workspace.INPUT / f'__{purpose}-{id}'
+
+    def _remove_leftovers(self, input_nick):
+        '''
+        Remove what was left by a failed or killed load or unload.
+        '''
+        input_dir = self.directory / layouts.Workspace.INPUT
+        for purpose in ('loading', 'unloading'):
+            staging_dir = self._staging_directory(purpose, input_nick)
+            if staging_dir.is_dir():
+                fs.make_writable(input_dir)
+                try:
+                    fs.rmtree(staging_dir)
+                finally:
+                    fs.make_readonly(input_dir)
+
     def unload(self, input_nick):
         '''
         Remove files for given input
         '''
         assert self.has_input(input_nick)
+        self._remove_leftovers(input_nick)
+        if not self.is_loaded(input_nick):
+            return
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
         try:
-            fs.rmtree(input_dir / input_nick)
+            # partially removed data must not be visible as a loaded input
+            unloading_dir = self._staging_directory('unloading', input_nick)
+            (input_dir / input_nick).rename(unloading_dir)
+            fs.rmtree(unloading_dir)
         finally:
             fs.make_readonly(input_dir)
 
diff --git a/bead_cli/input.py b/bead_cli/input.py
index 3d2632e..9946033 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -284,6 +284,9 @@ def _unload(workspace, input_nick):
         print(' Done', flush=True)
     else:
         print(input_nick, 'was not loaded - skipping')
+        if workspace.has_input(input_nick):
+            # clean up after interrupted commands
+            workspace.unload(input_nick)
 
 
 def get_workspace(args) -> Workspace:
-- 
2.43.0


From d1fb1f943e5c3a441ec223fb94ad16ad801f2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 15/65] fix: do not touch anything but inputs when unloading or
 deleting inputs

---
 bead/workspace.py | 4 +++-
 bead_cli/input.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 71d0c78..459590a 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -127,7 +127,9 @@ class Workspace(Bead):
 
         NOTE: it is not necessarily loaded!
         '''
-        return input_nick in self.meta[meta.INPUTS]
+        return (
+            meta.InputName.is_wellformed(input_nick)
+            and input_nick in self.meta[meta.INPUTS])
 
     def is_loaded(self, input_nick):
         return (self.directory / layouts.Workspace.INPUT / input_nick).is_dir()
diff --git a/bead_cli/input.py b/bead_cli/input.py
index 9946033..ca193df 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -278,7 +278,7 @@ class CmdUnload(Command):
 
 
 def _unload(workspace, input_nick):
-    if workspace.is_loaded(input_nick):
+    if workspace.has_input(input_nick) and workspace.is_loaded(input_nick):
         print('Unloading', input_nick, '...', end='', flush=True)
         workspace.unload(input_nick)
         print(' Done', flush=True)
-- 
2.43.0


From 4dfac1a78b95a1b15a644e3f7b2ccee24e637e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 16/65] fix: never extract files outside of the destination
 directory

---
 bead/ziparchive.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index c3412bd..3d972e0 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -87,6 +87,7 @@ class ZipArchive(Archive):
     def _checks(self):
         yield from self._meta_checks()
         yield self._bead_creation_time_is_in_the_past()
+        yield self._has_only_extractable_names()
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
 
@@ -102,6 +103,14 @@ class ZipArchive(Archive):
             isinstance(reference.kind, str) and isinstance(reference.content_id, str)
             for reference in references)
 
+    def _has_only_extractable_names(self):
+        files = {
+            name
+            for name in self.zipfile.namelist()
+            if name.startswith((layouts.Archive.CODE + '/', layouts.Archive.DATA + '/'))}
+        parents = {parent for name in files for parent in _parent_names(name)}
+        return all(is_safe_path(name) for name in files) and not files & parents
+
     def _bead_creation_time_is_in_the_past(self):
         read_time = timestamp.time_from_timestamp
         now = read_time(timestamp.timestamp())
@@ -216,6 +225,9 @@ class ZipArchive(Archive):
         for zip_path in self.zipfile.namelist():
             if not zip_path.startswith(zip_dir_prefix):
                 continue
+            if not is_safe_path(zip_path):
+                # would be extracted outside of fs_dir
+                raise InvalidArchive(self.archive_filename)
             fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
             self.extract_file(zip_path, fs_path)
 
@@ -229,6 +241,24 @@ class ZipArchive(Archive):
         workspace.meta = self.meta
 
 
+def is_safe_path(zip_path):
+    '''
+    Is zip_path a proper relative path of a file, that does not leave its directory?
+    '''
+    fs_path = tech.fs.Path(zip_path)
+    return (
+        not fs_path.is_absolute()
+        and not fs_path.drive
+        and '..' not in fs_path.parts
+        and fs_path.as_posix() == zip_path)
+
+
+def _parent_names(zip_path):
+    while '/' in zip_path:
+        zip_path, _, _ = zip_path.rpartition('/')
+        yield zip_path
+
+
 def bead_name_from_file_path(path):
     '''
     Parse bead name from a file path.
-- 
2.43.0


From ae7e6ab396c329fb783eb6cd7aa8ae3ab36a27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 17/65] fix: record the right moment when the offset of the
 time zone changes

---
 bead/tech/timestamp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..a107a11 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -185,6 +185,16 @@ def parse_timedelta(delta_str):
         delta_str)
 
 
+def now():
+    '''
+        This moment with the offset that is in effect now.
+
+        (`Local` does not know about offset changes other than regular DST,
+        and it is ambiguous when the clock is set back)
+    '''
+    return datetime.now().astimezone()
+
+
 def timestamp():
     '''
         A string representation of this moment.
@@ -195,7 +205,7 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    return now().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
@@ -228,7 +238,7 @@ def time_from_user(timeish):
         pass
     try:
         # fall back to interpreting it as a time-delta added to `now`
-        return datetime.now(Local) + parse_timedelta(timeish)
+        return now() + parse_timedelta(timeish)
     except ValueError:
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From d3c4d44d69caf200766e4f39454a327055a3963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 18/65] fix: index the exact moment of saving

---
 bead/box_index.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 79c689a..16f7a46 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -4,6 +4,7 @@ SQLite-based index for bead storage and retrieval.
 
 import sqlite3
 from contextlib import closing
+from datetime import datetime, timedelta, timezone
 from pathlib import Path
 from urllib.parse import quote
 
@@ -13,6 +14,8 @@ from .exceptions import BoxIndexError
 from .meta import InputSpec
 from .ziparchive import ZipArchive
 
+UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 
 def create_update_connection(index_path: Path):
     '''Create database connection for updates and ensure schema exists.'''
@@ -127,12 +130,12 @@ def find_file_path(conn, name, content_id):
 
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
-    if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
-    elif isinstance(timestamp, str):
+    if isinstance(timestamp, str):
         from .tech.timestamp import time_from_timestamp
-        dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+        timestamp = time_from_timestamp(timestamp)
+    if isinstance(timestamp, datetime):
+        # floats can not represent microseconds exactly
+        return (timestamp - UNIX_EPOCH) // timedelta(microseconds=1)
     return timestamp
 
 
-- 
2.43.0


From 32ed641f541894ccf74aca517ccac46fc94fca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 19/65] fix: draw webs having backslashes in names

---
 bead_cli/web/graphviz.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index b7016ca..0b6ea2e 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -27,10 +27,15 @@ digraph {{
 
 
 def node_cluster(bead):
-    id = bead.name.replace('"', '\\"')
+    id = bead.name.replace('\\', '\\\\').replace('"', '\\"')
     return f'"cluster_{id}"'
 
 
+def escape_label(text):
+    # backslash starts an escape sequence in all kinds of labels
+    return html.escape(text).replace('\\', '\\\\')
+
+
 BEAD_COLOR = {
     Freshness.PHANTOM: "red",
     Freshness.SUPERSEDED: "grey",
@@ -58,7 +63,7 @@ def dot_cluster_as_fragments(cluster_name, beads, indent='  '):
     # they have the same name
     assert {bead.name for bead in beads} == {cluster_name}
 
-    label = html.escape(cluster_name)
+    label = escape_label(cluster_name)
 
     yield indent
     yield node_cluster(beads[0])
@@ -113,7 +118,7 @@ class Context:
         after_label = [dest]
         silent_helper_nodes = []
         color = bead_color(bead_src) if not is_auxiliary_edge else 'grey90'
-        label = html.escape(name)
+        label = escape_label(name)
 
         # add auxiliary nodes before label
         for _ in range(4):
-- 
2.43.0


From b436d63f92bf7c79738583214ec9bfdb7812f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 20/65] fix: refuse workspace and input names that are too long
 to be used

---
 bead_cli/common.py    | 9 +++++++++
 bead_cli/input.py     | 4 +++-
 bead_cli/workspace.py | 8 +++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/bead_cli/common.py b/bead_cli/common.py
index f4bfe8a..eb6b8c9 100644
--- a/bead_cli/common.py
+++ b/bead_cli/common.py
@@ -17,6 +17,15 @@ TIME_LATEST = parse_iso8601('9999-12-31')
 
 ERROR_EXIT = 1
 
+# limit of most file systems (in bytes)
+MAX_FILE_NAME_LENGTH = 255
+# archives have the time of saving and the extension in their name besides the name of the bead
+MAX_BEAD_NAME_LENGTH = MAX_FILE_NAME_LENGTH - len('_YYYYmmddTHHMMSSffffff+zzzz.zip')
+
+
+def is_too_long(name, max_length):
+    return len(os.fsencode(name)) > max_length
+
 
 def die(msg) -> NoReturn:
     sys.stderr.write('ERROR: ')
diff --git a/bead_cli/input.py b/bead_cli/input.py
index ca193df..1424d32 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -16,7 +16,9 @@ from .common import TIME_LATEST
 from .common import BEAD_REF_BASE_defaulting_to
 from .common import DefaultArgSentinel
 from .common import assert_valid_workspace
+from .common import MAX_FILE_NAME_LENGTH
 from .common import die
+from .common import is_too_long
 from .common import resolve_bead
 from .common import verify_with_feedback
 from .common import warning
@@ -67,7 +69,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if not InputName.is_wellformed(input_nick):
+        if not InputName.is_wellformed(input_nick) or is_too_long(input_nick, MAX_FILE_NAME_LENGTH):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 5e05d47..36718ba 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -16,8 +16,10 @@ from .common import BEAD_TIME
 from .common import OPTIONAL_WORKSPACE
 from .common import DefaultArgSentinel
 from .common import assert_valid_workspace
+from .common import MAX_BEAD_NAME_LENGTH
 from .common import die
 from .common import info
+from .common import is_too_long
 from .common import resolve_bead
 from .common import verify_with_feedback
 from .common import warning
@@ -39,6 +41,7 @@ def assert_may_be_valid_name(name):
         and '\\' not in name
         and ':' not in name
         and BeadName.is_wellformed(name)
+        and not is_too_long(name, MAX_BEAD_NAME_LENGTH)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
@@ -155,7 +158,10 @@ class CmdEdit(Command):
         else:
             workspace = args.workspace
 
-        if not BeadName.is_wellformed(workspace.name):
+        if (
+            not BeadName.is_wellformed(workspace.name)
+            or is_too_long(workspace.name, MAX_BEAD_NAME_LENGTH)
+        ):
             die(f'Invalid name "{workspace.name}"')
         if os.path.exists(workspace.directory):
             die(f'Workspace "{workspace.name}" directory already exists'
-- 
2.43.0


From 3fe8119d28a98b9483db596d0ddd5f7b81314c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 21/65] fix: never overwrite a file that appears while saving
 starts

---
 bead/workspace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 459590a..457a4a0 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -115,6 +115,9 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
+        except FileExistsError:
+            # someone else's archive
+            raise
         except BaseException:
             # includes KeyboardInterrupt: never leave a partial archive behind
             if zipfilename.exists():
@@ -287,7 +290,8 @@ class _ZipCreator:
         try:
             with zipfile.ZipFile(
                 zip_file_name,
-                mode='w',
+                # never overwrite an existing file
+                mode='x',
                 compression=compression,
                 allowZip64=True,
                 # file times outside of what ZIP can represent are not a problem
-- 
2.43.0


From 6e67c6b15b52928c0579f3417a27cb5d8489ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 22/65] fix: do not list archives with incomplete or malformed
 metadata as beads

---
 bead/box_rawfs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 29325a4..b6d7869 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -100,8 +100,9 @@ class RawFilesystemResolver:
         """
         Create a Bead instance from Archive metadata.
 
-        Raises InvalidArchive, if the metadata is malformed.
+        Raises InvalidArchive, if the metadata is incomplete or malformed.
         """
+        archive.validate_meta()
         try:
             bead = Bead()
             bead.kind = archive.kind
@@ -110,8 +111,6 @@ class RawFilesystemResolver:
             bead.content_id = archive.content_id
             bead.freeze_time_str = archive.freeze_time_str
             bead.box_name = archive.box_name
-            for timed in (bead, *bead.inputs):
-                timed.freeze_time  # raises an error if malformed
         except Exception as e:
             raise InvalidArchive(archive.location) from e
         return bead
-- 
2.43.0


From ffbfe8e90fd74bcb6764c8be09a061b9b9ec2d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 23/65] fix: refuse times with impossible time zone offsets

---
 bead/tech/timestamp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index a107a11..123bcef 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -112,7 +112,7 @@ def _compile_parser(template):
                 *
                 (v('tzhour', 0) * 60 + v('tzmin', 0)))
 
-            return datetime(
+            time = datetime(
                 v('year', 0),
                 v('month', 1),
                 v('day', 1),
@@ -121,6 +121,8 @@ def _compile_parser(template):
                 v('second', 0),
                 v('microsec', 0),
                 FixedOffset(tzoffset, 'TZ' + str(tzoffset)))
+            time.utcoffset()  # raises ValueError if there can not be such an offset
+            return time
     return convert
 
 
-- 
2.43.0


From 6ec05ca2ddcb9587cc0dc2e6643084ade182aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 24/65] fix: beads saved while the box is being indexed first
 are not lost from the index

---
 bead/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box.py b/bead/box.py
index ebcceef..eab51a7 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -458,6 +458,8 @@ class Box:
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
         # Add to resolver
+        # - the box might have been indexed by another process meanwhile
+        self.resolver = self._create_resolver()
         self.resolver.index_archive_file(zipfilename)
         
         return zipfilename
-- 
2.43.0


From ec9825dd3f1f396b9263a1450263a22816f83891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 25/65] fix: beads saved at the start of a reindex run are not
 lost from the index

---
 bead/box_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index 16f7a46..1bc06cf 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -266,6 +266,8 @@ class BoxIndex:
         '''Rebuild index from scratch by scanning all files.'''
         if self.index_path.exists():
             self.index_path.unlink()
+        # archives stored from now on are indexed when they are stored
+        ensure_index(self.box_directory)
         
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
-- 
2.43.0


From 5f4f33e59efdebd47663cc12f8b253969aa4239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 26/65] fix: register the default box with its real location

---
 bead_cli/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 36718ba..ff319db 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -103,7 +103,7 @@ class CmdSave(Command):
                 beadbox = tech.fs.Path(os.path.expanduser('~/BeadBox'))
                 info(f'Creating and using a new one with name `home` and location {beadbox}')
                 tech.fs.ensure_directory(beadbox)
-                env.add_box('home', beadbox)
+                env.add_box('home', beadbox.resolve())
                 env.save()
                 # continue with newly created box
                 boxes = env.get_boxes()
-- 
2.43.0


From 14658cf546831bf5d3df4588decd2c5d7f810a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 27/65] fix: refuse relative times that are too far away

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 123bcef..dc6caef 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -241,6 +241,6 @@ def time_from_user(timeish):
     try:
         # fall back to interpreting it as a time-delta added to `now`
         return now() + parse_timedelta(timeish)
-    except ValueError:
+    except (ValueError, OverflowError):
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From ba567169e4c3b84400e2eae819c962d161d818f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 28/65] fix: time stamps are readable in time zones with
 seconds in their offset

---
 bead/tech/timestamp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index dc6caef..e1e0505 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -207,7 +207,10 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return now().strftime('%Y%m%dT%H%M%S%f%z')
+    time = now()
+    # the offset is recorded in whole minutes
+    offset = time.utcoffset() // timedelta(minutes=1)
+    return time.astimezone(FixedOffset(offset, '')).strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 0236df7a9024a00cfa2cd5ffb3463cee9895c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 29/65] fix: only a dot can separate seconds from their
 fraction in times

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index e1e0505..d962c73 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -140,7 +140,7 @@ _ISO8601_PARSERS = [
         '{YEAR}-{MONTH}-{DAY}',
         '{YEAR}{MONTH}{DAY}T{HOUR}{MINUTE}{SECOND}{TIMEZONE}',
         '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}{TIMEZONE}',
-        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}.{MICROSEC}{TIMEZONE}',
+        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}[.]{MICROSEC}{TIMEZONE}',
     )]
 
 
-- 
2.43.0


From 05108b109c2238ef9b8a826a75eed996bbdba00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 30/65] fix: web works when there are copies of a bead with
 inputs

---
 bead_cli/web/sketch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..93e3085 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -42,10 +42,12 @@ class Sketch:
     @classmethod
     def from_beads(cls, beads: Sequence[Dummy]):
         bead_index = Ref.index_for(beads)
+        # there can be copies of the same bead in different boxes
+        unique_beads = tuple(bead_index.values())
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                for bead in unique_beads))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From ce4ee104594ca1e47972eea45496f7300b1df9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 31/65] fix: newest version of a computation does not depend on
 the order of beads

---
 bead_cli/web/cluster.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/cluster.py b/bead_cli/web/cluster.py
index cf847a8..85db175 100644
--- a/bead_cli/web/cluster.py
+++ b/bead_cli/web/cluster.py
@@ -8,6 +8,11 @@ from .dummy import Dummy
 from .freshness import Freshness
 
 
+def version_order(bead):
+    # beads with the same freeze time are also ordered
+    return (bead.freeze_time, bead.content_id)
+
+
 class Cluster:
     """
     Versions of beads having the same name.
@@ -34,7 +39,7 @@ class Cluster:
         self.beads_by_content_id[bead.content_id] = bead
 
         def head_order(bead):
-            return (bead.is_not_phantom, bead.freeze_time)
+            return (bead.is_not_phantom, *version_order(bead))
 
         if head_order(bead) >= head_order(self.head):
             self.head = bead
@@ -46,7 +51,7 @@ class Cluster:
         return (
             sorted(
                 self.beads_by_content_id.values(),
-                key=(lambda bead: bead.freeze_time),
+                key=version_order,
                 reverse=True))
 
     def reset_freshness(self):
-- 
2.43.0


From 1fe539ef74f38613b5759bc66f0d4bd5e6a268cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 32/65] fix: head of a cluster is always one of its beads

---
 bead_cli/web/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/cluster.py b/bead_cli/web/cluster.py
index 85db175..9928ff3 100644
--- a/bead_cli/web/cluster.py
+++ b/bead_cli/web/cluster.py
@@ -36,12 +36,13 @@ class Cluster:
     def add(self, bead):
         assert bead.name == self.name
         assert bead.content_id not in self.beads_by_content_id
+        is_first = not self.beads_by_content_id
         self.beads_by_content_id[bead.content_id] = bead
 
         def head_order(bead):
             return (bead.is_not_phantom, *version_order(bead))
 
-        if head_order(bead) >= head_order(self.head):
+        if is_first or head_order(bead) >= head_order(self.head):
             self.head = bead
 
     def beads(self):
-- 
2.43.0


From 46983596f9f2d637ce9e33532ba191996bfd7bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 33/65] fix: colour webs with long chains of inputs

---
 bead_cli/web/graph.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/bead_cli/web/graph.py b/bead_cli/web/graph.py
index e320e9a..74d76a6 100644
--- a/bead_cli/web/graph.py
+++ b/bead_cli/web/graph.py
@@ -128,24 +128,26 @@ def toposort(edges: Sequence[Edge]) -> List[Node]:
     node_by_ref = node_index_from_edges(edges)
 
     todo = set(node_by_ref.keys())
-    path: List[Ref] = []
     output: List[Node] = []
 
-    def dfs(ref: Ref):
-        if ref in path:
-            raise ValueError('Loop detected!', path, ref)
-
-        path.append(ref)
-        for input_edge in edges_by_dest[ref]:
-            input_node = input_edge.src
-            if input_node.ref in todo:
-                dfs(input_node.ref)
-        path.pop()
-
-        todo.remove(ref)
-        output.append(node_by_ref[ref])
-
-    while todo:
-        dfs(next(iter(todo)))
+    # depth first search, not recursive, as chains of inputs can be long
+    for root in node_by_ref:
+        if root not in todo:
+            continue
+        # nodes between the root and the current node with their unprocessed inputs
+        path = {root: iter(edges_by_dest[root])}
+        while path:
+            ref, input_edges = next(reversed(path.items()))
+            for input_edge in input_edges:
+                input_ref = input_edge.src_ref
+                if input_ref in path:
+                    raise ValueError('Loop detected!', list(path), input_ref)
+                if input_ref in todo:
+                    path[input_ref] = iter(edges_by_dest[input_ref])
+                    break
+            else:
+                del path[ref]
+                todo.remove(ref)
+                output.append(node_by_ref[ref])
 
     return output
-- 
2.43.0


From 9611614f294d54153ad6c72b8096f0eeb305393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 34/65] fix: draw webs having control characters in names

---
 bead_cli/web/graphviz.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index 0b6ea2e..95229df 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -1,4 +1,5 @@
 import html
+import re
 
 from .freshness import Freshness
 
@@ -26,12 +27,18 @@ digraph {{
 """
 
 
+# control characters and parts of undecodable file names
+NOT_XML_CHAR = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]')
+
+
 def node_cluster(bead):
     id = bead.name.replace('\\', '\\\\').replace('"', '\\"')
+    id = id.encode('utf-8', 'backslashreplace').decode('utf-8')
     return f'"cluster_{id}"'
 
 
 def escape_label(text):
+    text = NOT_XML_CHAR.sub('\ufffd', text)
     # backslash starts an escape sequence in all kinds of labels
     return html.escape(text).replace('\\', '\\\\')
 
-- 
2.43.0


From 8f704e07fab5330b81dbd64c87c3847532093deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 35/65] fix: index beads with undecodable names

---
 bead/box_index.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 1bc06cf..bccb23a 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -17,9 +17,37 @@ from .ziparchive import ZipArchive
 UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 
+class Connection(sqlite3.Connection):
+    '''
+    I am a connection, that stores texts that are not valid unicode (undecodable file names) as blobs.
+    '''
+
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.row_factory = lambda _cursor, row: tuple(map(from_db_value, row))
+
+    def execute(self, sql, parameters=()):
+        return super().execute(sql, tuple(map(to_db_value, parameters)))
+
+
+def to_db_value(value):
+    if isinstance(value, str):
+        try:
+            value.encode('utf-8')
+        except UnicodeEncodeError:
+            return value.encode('utf-8', 'surrogatepass')
+    return value
+
+
+def from_db_value(value):
+    if isinstance(value, bytes):
+        return value.decode('utf-8', 'surrogatepass')
+    return value
+
+
 def create_update_connection(index_path: Path):
     '''Create database connection for updates and ensure schema exists.'''
-    conn = sqlite3.connect(str(index_path))
+    conn = sqlite3.connect(str(index_path), factory=Connection)
     try:
         create_schema(conn)
     except Exception:
@@ -31,7 +59,7 @@ def create_update_connection(index_path: Path):
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
     # the path is to be quoted as it might contain characters special in URIs
-    conn = sqlite3.connect(f"file:{quote(bytes(index_path))}?mode=ro", uri=True)
+    conn = sqlite3.connect(f"file:{quote(bytes(index_path))}?mode=ro", uri=True, factory=Connection)
     return closing(conn)
 
 
-- 
2.43.0


From 1709f1d2ceba9acdaeb9bbbb0a170f26d24181a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:46 +0000
Subject: [PATCH 36/65] fix: removing a directory keeps the permissions of what
 it is linked with

Files removed from a workspace or an input could be hard links: making them
writable changed their other names outside of the removed directory.
An input replaced with a link could not be removed, but everything in the
directory it points to was made writable.
---
 bead/tech/fs.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index e0ecac6..7a0d561 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -61,7 +61,16 @@ def all_subpaths(dir: Path, followlinks=False):
 
 
 def rmtree(root: Path, *args, **kwargs):
+    if os.path.islink(root):
+        # what it points to is someone else's
+        os.unlink(root)
+        return
     for path in all_subpaths(root, followlinks=False):
-        if not os.path.islink(path):
-            make_writable(path)
+        if os.path.islink(path):
+            continue
+        if os.name == 'posix' and not os.path.isdir(path):
+            # removing a file needs only a writable directory,
+            # and the permissions of the file are shared by all its hard links
+            continue
+        make_writable(path)
     shutil.rmtree(root, *args, **kwargs)
-- 
2.43.0


From 35090a2701752052466bcb243967df78be070f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 37/65] fix: paths are not names of beads

Using a mistyped absolute path of a bead was an internal error instead of
an unknown bead.
---
 bead/box_rawfs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index b6d7869..f415bb9 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -57,6 +57,9 @@ class RawFilesystemResolver:
 
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
+        if '/' in bead_name:
+            # a path is not a name of any bead
+            return iter(())
         # the name is literal, and whatever follows it (usually a timestamp) is optional
         # - the bead's actual name is to be checked later
         return self.box_directory.glob(glob.escape(bead_name) + '*.zip')
-- 
2.43.0


From fda246c9e59fb6666c269be8920d4fb18ab0052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 38/65] fix: refuse to create workspaces under a file

It was an internal error of new and edit.
---
 bead_cli/workspace.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index ff319db..d2dfff0 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -47,6 +47,17 @@ def assert_may_be_valid_name(name):
         die(f'Invalid name "{name}"')
 
 
+def assert_may_be_created(workspace):
+    '''
+    Refuse workspaces under something that is not a directory
+    '''
+    for parent in workspace.directory.parents:
+        if os.path.lexists(parent):
+            if not os.path.isdir(parent):
+                die(f'Can not create workspace: {parent} is not a directory')
+            break
+
+
 class CmdNew(Command):
     '''
     Create and initialize new workspace directory for a new bead.
@@ -61,6 +72,7 @@ class CmdNew(Command):
         assert_may_be_valid_name(workspace.name)
         if os.path.exists(workspace.directory):
             die(f'Directory {workspace.name} already exists.')
+        assert_may_be_created(workspace)
 
         kind = tech.identifier.uuid()
         workspace.create(kind)
@@ -166,6 +178,7 @@ class CmdEdit(Command):
         if os.path.exists(workspace.directory):
             die(f'Workspace "{workspace.name}" directory already exists'
                 ' - do you have an old checkout?')
+        assert_may_be_created(workspace)
         bead.unpack_to(workspace)
         assert workspace.is_valid
 
-- 
2.43.0


From 984c8a29ada5291b2393aa8e70ddd8312a96a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 39/65] fix: refuse to discard what is not a directory

Discarding a missing directory or a file with --force was an internal error.
---
 bead_cli/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index d2dfff0..4f7da90 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -297,6 +297,8 @@ class CmdDiscard(Command):
         if not args.force:
             assert_valid_workspace(workspace)
         directory = workspace.directory
+        if not os.path.isdir(directory):
+            die(f'{directory} is not a directory')
         # on non-posix systems (Windows) it might happen, that we can not remove
         # the directory we are in -> ignore errors
         tech.fs.rmtree(directory, ignore_errors=os.name != 'posix')
-- 
2.43.0


From 4cfa106827e34b645ac19d38a5aa9c25e3be70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 40/65] fix: refuse too long names of directories

Too long arguments of box commands were internal errors.
---
 bead_cli/box.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bead_cli/box.py b/bead_cli/box.py
index e9f7ac1..8107216 100644
--- a/bead_cli/box.py
+++ b/bead_cli/box.py
@@ -1,3 +1,4 @@
+import os
 from typing import TYPE_CHECKING
 
 from bead import tech
@@ -24,7 +25,7 @@ class CmdAdd(Command):
         name: str = args.name
         directory: tech.fs.Path = args.directory
 
-        if not directory.is_dir():
+        if not os.path.isdir(directory):
             print(f'ERROR: "{directory}" is not an existing directory!')
             return
         location = directory.resolve()
@@ -160,7 +161,7 @@ class CmdReindex(Command):
         elif args.dir:
             # Rebuild specific directory
             directory = args.dir
-            if not directory.is_dir():
+            if not os.path.isdir(directory):
                 print(f'ERROR: "{directory}" is not an existing directory!')
                 return
             reindex_directory(directory)
@@ -261,7 +262,7 @@ class CmdIndex(Command):
         elif args.dir:
             # Index specific directory
             directory = args.dir
-            if not directory.is_dir():
+            if not os.path.isdir(directory):
                 print(f'ERROR: "{directory}" is not an existing directory!')
                 return
             index_directory(directory)
-- 
2.43.0


From 3ac37a45c1770ecaa7d186dfc3ac83b2937e51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:55 +0000
Subject: [PATCH 41/65] fix: refuse unusable files of webs

Missing, malformed and unwritable files were internal errors of web.
---
 bead_cli/web/commands.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 4fd113b..0324fc7 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -98,7 +98,11 @@ class CmdWeb(Command):
 
         sketch = Sketch.from_beads([])
         for command in commands:
-            sketch = command(sketch)
+            try:
+                sketch = command(sketch)
+            except (OSError, subprocess.CalledProcessError) as e:
+                # unreadable or unwritable files
+                die(f'{command}: {e}')
 
 
 def parse_commands(env, words):
@@ -155,8 +159,13 @@ class LoadAll(SketchProcessor):
 
 class Load(ProcessorWithFileName):
     def __call__(self, _sketch):
-        beads = read_beads(self.file_name)
-        return self.sketch_from_beads(beads)
+        try:
+            beads = read_beads(self.file_name)
+            return self.sketch_from_beads(beads)
+        except OSError:
+            raise
+        except Exception as e:
+            die(f'{self.file_name} is not a saved web: {e!r}')
 
 
 class Save(ProcessorWithFileName):
-- 
2.43.0


From cbd295e7e55e64d2dc5564400963eefad59d0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 42/65] fix: an empty reference is an unknown bead

It was an internal error.
---
 bead_cli/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bead_cli/common.py b/bead_cli/common.py
index eb6b8c9..51a77cb 100644
--- a/bead_cli/common.py
+++ b/bead_cli/common.py
@@ -113,6 +113,9 @@ def resolve_bead(env, bead_ref_base, time) -> Archive:
             die(f'Not a bead or damaged: {bead_ref_base}')
         return archive
 
+    if not bead_ref_base:
+        raise LookupError('Neither a file nor a name')
+
     # not a file - try box search
     boxes = env.get_boxes()
     bead = bead_box.search(boxes).by_name(bead_ref_base).at_or_older(time).newest()
-- 
2.43.0


From 860a890494fecc139297429539c84e6c46e57fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 43/65] fix: what can not be read is not a workspace

An unreadable directory of metadata in any of the parent directories crashed
all commands.
---
 bead/workspace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 457a4a0..f6080bb 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -31,12 +31,13 @@ class Workspace(Bead):
     @property
     def is_valid(self):
         dir = self.directory
+        # os.path: what can not be looked at is not valid - and not an error
         return all(
             (
-                (dir / layouts.Workspace.INPUT).is_dir(),
-                (dir / layouts.Workspace.OUTPUT).is_dir(),
-                (dir / layouts.Workspace.TEMP).is_dir(),
-                (dir / layouts.Workspace.BEAD_META).is_file()))
+                os.path.isdir(dir / layouts.Workspace.INPUT),
+                os.path.isdir(dir / layouts.Workspace.OUTPUT),
+                os.path.isdir(dir / layouts.Workspace.TEMP),
+                os.path.isfile(dir / layouts.Workspace.BEAD_META)))
 
     @property
     def _meta_filename(self):
-- 
2.43.0


From be772949ec839642163b0fc383b90b2606f2bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 44/65] fix: report what can not be saved

Saving crashed on dangling links, special files, files that can not be read
and file names that can not be decoded.
---
 bead/workspace.py     | 4 +++-
 bead_cli/workspace.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index f6080bb..4c0c766 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -10,6 +10,7 @@ from . import meta
 from . import tech
 from .bead import Archive
 from .bead import Bead
+from .exceptions import BoxError
 
 # technology modules
 persistence = tech.persistence
@@ -264,7 +265,8 @@ class _ZipCreator:
         if os.path.isdir(path):
             self.add_directory(path, zip_path)
         else:
-            assert os.path.isfile(path), '%s is neither a file nor a directory' % path
+            if not os.path.isfile(path):
+                raise BoxError(f'{path} is neither a file nor a directory')
             self.add_file(path, zip_path)
 
     def add_directory(self, path, zip_path: str):
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 4f7da90..ba436ab 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -131,7 +131,7 @@ class CmdSave(Command):
                 die(f'Unknown box: {box_name}')
         try:
             location = box.store(workspace, timestamp())
-        except BoxError as e:
+        except (BoxError, OSError, UnicodeError) as e:
             die(f'Error saving: {e}')
         print(f'Successfully stored bead at {location}.')
 
-- 
2.43.0


From fbd6ca41e9af5b5a3075a8709703910e3da016e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 45/65] fix: web sub-commands after view crash

---
 bead_cli/web/commands.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 0324fc7..fe192e2 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -201,6 +201,7 @@ class View(ProcessorWithFileName):
     def __call__(self, sketch):
         print(f"Viewing {self.file_name}")
         webbrowser.open(self.file_name.as_posix())
+        return sketch
 
 
 class Filter(SketchProcessor):
-- 
2.43.0


From 05263562bd50f607a68c55d1277be94ee89f6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 46/65] fix: help crashes below directories with % in their
 name

---
 bead_cli/cmdparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead_cli/cmdparse.py b/bead_cli/cmdparse.py
index 84d4b34..5fa2957 100644
--- a/bead_cli/cmdparse.py
+++ b/bead_cli/cmdparse.py
@@ -135,8 +135,10 @@ class Parser:
             arg_kwargs = dict(kwargs)
             if 'default' in kwargs:
                 # extend help with default
+                # help is a %-format string
+                default = str(kwargs['default']).replace('%', '%%')
                 arg_kwargs['help'] = (
-                    f"{kwargs.get('help', '')} (default: {kwargs['default']!s})")
+                    f"{kwargs.get('help', '')} (default: {default})")
             self.argparser.add_argument(*args, **arg_kwargs)
 
     def command(self, name: str, commandish: Command | type[Command], title: str) -> None:
-- 
2.43.0


From c2aaafb5fec6873c7fdfbbcaa24b822691007d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 47/65] fix: web crashes when COLUMNS is not a number

---
 bead_cli/web/commands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index fe192e2..7879d33 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -1,5 +1,5 @@
 import argparse
-import os
+import shutil
 import subprocess
 import textwrap
 from typing import TYPE_CHECKING
@@ -260,7 +260,7 @@ SUBCOMMANDS = {
 
 
 def load_all_beads(boxes):
-    columns = int(os.environ.get('COLUMNS', 80))
+    columns = shutil.get_terminal_size().columns
     all_beads = []
     for n, bead in enumerate(search(boxes).all()):
         msg = f"\rLoaded bead {n + 1} ({bead.box_name} : {bead.name} @ {bead.freeze_time_str})"[:columns]
-- 
2.43.0


From 0f9ced6254502c5c769b818e5ec8b9e44a9f16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 48/65] fix: a box that can not be entered breaks every command

---
 bead/box.py       | 7 ++++---
 bead/box_index.py | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bead/box.py b/bead/box.py
index eab51a7..e89cd6f 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -10,6 +10,7 @@ Boxes can be used to:
   (this is naive access control, but could work)
 '''
 
+import os
 from abc import ABC
 from abc import abstractmethod
 from typing import Any
@@ -424,7 +425,7 @@ class Box:
             raise ValueError(f"Bead box_name '{bead.box_name}' does not match this box '{self.name}'")
 
         file_path = self.resolver.get_file_path(bead.name, bead.content_id)
-        if not file_path.exists():
+        if not os.path.exists(file_path):
             raise LookupError(f"Archive file not found: {file_path}")
             
         try:
@@ -447,9 +448,9 @@ class Box:
 
     def store(self, workspace, freeze_time) -> Path:
         '''Store workspace as bead archive.'''
-        if not self.directory.exists():
+        if not os.path.exists(self.directory):
             raise BoxError(f'Box "{self.name}": directory {self.directory} does not exist')
-        if not self.directory.is_dir():
+        if not os.path.isdir(self.directory):
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
         if not BeadName.is_wellformed(workspace.name):
             raise BoxError(f'"{workspace.name}" is not a valid bead name')
diff --git a/bead/box_index.py b/bead/box_index.py
index bccb23a..c3f2ab4 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -2,6 +2,7 @@
 SQLite-based index for bead storage and retrieval.
 '''
 
+import os
 import sqlite3
 from contextlib import closing
 from datetime import datetime, timedelta, timezone
@@ -255,7 +256,8 @@ def load_bead_inputs(conn, name, content_id):
 def index_path_exists(box_directory: Path) -> bool:
     """Check if SQLite index file exists in box directory."""
     index_path = box_directory / '.index.sqlite'
-    return index_path.exists()
+    # os.path.exists() is also False when the directory can not be entered
+    return os.path.exists(index_path)
 
 
 def can_read_index(box_directory: Path) -> bool:
-- 
2.43.0


From 2d1d0fa979d2c2b9768b9bcbf8215f564d28bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 49/65] fix: a box below a directory that can not be entered
 breaks searches

---
 bead/box_rawfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index f415bb9..990af46 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,4 +1,5 @@
 import glob
+import os
 from typing import Iterable
 from typing import Iterator
 
@@ -60,6 +61,9 @@ class RawFilesystemResolver:
         if '/' in bead_name:
             # a path is not a name of any bead
             return iter(())
+        if not os.path.isdir(self.box_directory):
+            # missing or unreachable: glob would fail for the latter
+            return iter(())
         # the name is literal, and whatever follows it (usually a timestamp) is optional
         # - the bead's actual name is to be checked later
         return self.box_directory.glob(glob.escape(bead_name) + '*.zip')
-- 
2.43.0


From 6b24ee0065035712ad44de935a4285186c047632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 50/65] fix: indexing an unreachable box is reported as done

---
 bead/box_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index c3f2ab4..fbf846f 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -297,13 +297,16 @@ class BoxIndex:
         if self.index_path.exists():
             self.index_path.unlink()
         # archives stored from now on are indexed when they are stored
-        ensure_index(self.box_directory)
+        if not ensure_index(self.box_directory):
+            raise BoxIndexError(f'Can not create index in {self.box_directory}')
         
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
     
     def sync(self):
         '''Add new files to index and remove deleted files.'''
+        if not can_read_index(self.box_directory):
+            raise BoxIndexError(f'There is no usable index in {self.box_directory}')
         try:
             with create_query_connection(self.index_path) as conn:
                 indexed_files = get_indexed_files(conn)
-- 
2.43.0


From a82ae7596da8fb8ed626c6f6437a37776c6349aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 51/65] fix: names that can not be encoded for the output crash
 commands with an internal error

---
 bead_cli/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bead_cli/main.py b/bead_cli/main.py
index 5b4f62a..a1f21b9 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -146,6 +146,11 @@ def main(run=run):
             file=sys.stderr)
         sys.exit(2)
 
+    # the encoding of the output might be unable to represent some of the names
+    # (sys.stderr already uses this error handler)
+    if getattr(sys.stdout, 'errors', None) == 'strict':
+        sys.stdout.reconfigure(errors='backslashreplace')
+
     config_dir = appdirs.user_config_dir(
         'bead_cli-6a4d9d98-8e64-4a2a-b6c2-8a753ea61daf')
     try:
-- 
2.43.0


From 3b085f8780de9f1bb7d01e88ad15ac000e8ee76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 52/65] fix: configuration directory that can not be created
 crashes commands with an internal error

---
 bead_cli/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bead_cli/main.py b/bead_cli/main.py
index a1f21b9..5ab3b7f 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -17,6 +17,7 @@ from . import input
 from . import workspace
 from .cmdparse import Command
 from .cmdparse import Parser
+from .common import die
 from .environment import Environment
 from .web import commands as web
 
@@ -100,9 +101,9 @@ def run(config_dir: str, argv: Sequence[str]):
     config_path = Path(config_dir)
     try:
         os.makedirs(config_path)
-    except OSError:
+    except OSError as error:
         if not os.path.isdir(config_path):
-            raise
+            die(f'Can not create configuration directory {config_path}: {error.strerror}')
 
     env = Environment.from_dir(config_path)
     return parser.dispatch(argv, env)
-- 
2.43.0


From fb5e1e02016d014f09431de39183b12260def3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 53/65] fix: closed output pipe crashes commands with an
 internal error

---
 bead_cli/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bead_cli/main.py b/bead_cli/main.py
index 5ab3b7f..03111ee 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -159,6 +159,11 @@ def main(run=run):
     except KeyboardInterrupt:
         print("Interrupted :(", file=sys.stderr)
         retval = -1
+    except BrokenPipeError:
+        # the reader of the output has gone - there is nobody to tell anything
+        # https://docs.python.org/3/library/signal.html#note-on-sigpipe
+        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
+        retval = -1
     except SystemExit:
         raise
     except BaseException:
-- 
2.43.0


From 6cac4b82dbfb35498e9f7227fdfab6046eb99e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 54/65] fix: creating a workspace (new, edit) in a read-only
 directory crashes with an internal error

---
 bead_cli/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index ba436ab..51e06d9 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -49,12 +49,14 @@ def assert_may_be_valid_name(name):
 
 def assert_may_be_created(workspace):
     '''
-    Refuse workspaces under something that is not a directory
+    Refuse workspaces under something that is not a directory or is not writable
     '''
     for parent in workspace.directory.parents:
         if os.path.lexists(parent):
             if not os.path.isdir(parent):
                 die(f'Can not create workspace: {parent} is not a directory')
+            if not os.access(parent, os.W_OK | os.X_OK):
+                die(f'Can not create workspace: {parent} is not writable')
             break
 
 
-- 
2.43.0


From 83eab03c842810243dc9960fc4e678b2e558db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 55/65] fix: viewing a file with a name starting with a dash
 crashes with an internal error

---
 bead_cli/web/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 7879d33..ce0787e 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -200,7 +200,7 @@ class WriteSvg(ProcessorWithFileName):
 class View(ProcessorWithFileName):
     def __call__(self, sketch):
         print(f"Viewing {self.file_name}")
-        webbrowser.open(self.file_name.as_posix())
+        webbrowser.open(self.file_name.absolute().as_posix())
         return sketch
 
 
-- 
2.43.0


From e3e86a81be679053e7548d30a44a6f4cc9ab731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 56/65] fix: failed box index and reindex commands exit with
 the status of success

---
 bead_cli/box.py | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/bead_cli/box.py b/bead_cli/box.py
index 8107216..9b5f6f5 100644
--- a/bead_cli/box.py
+++ b/bead_cli/box.py
@@ -4,6 +4,7 @@ from typing import TYPE_CHECKING
 from bead import tech
 
 from .cmdparse import Command
+from .common import ERROR_EXIT
 
 if TYPE_CHECKING:
     from .environment import Environment
@@ -79,6 +80,10 @@ class CmdForget(Command):
             print(f'WARNING: no box defined with "{name}"')
 
 
+def exit_status(success):
+    return 0 if success else ERROR_EXIT
+
+
 def reindex(box):
     '''Rebuild index for a single box.'''
     from bead.box_index import BoxIndex
@@ -113,7 +118,7 @@ def reindex_all(boxes):
     '''Rebuild indexes for all boxes.'''
     if not boxes:
         print('No boxes defined')
-        return
+        return True
 
     print(f'Rebuilding indexes for {len(boxes)} box(es)...')
     success_count = 0
@@ -123,6 +128,7 @@ def reindex_all(boxes):
             success_count += 1
 
     print(f'Completed: {success_count}/{len(boxes)} boxes rebuilt successfully')
+    return success_count == len(boxes)
 
 
 class CmdReindex(Command):
@@ -147,37 +153,36 @@ class CmdReindex(Command):
             boxes = env.get_boxes()
             if len(boxes) == 1:
                 # Auto-use the single box
-                reindex(boxes[0])
-                return
+                return exit_status(reindex(boxes[0]))
             elif len(boxes) == 0:
                 print('ERROR: No boxes defined. Use "bead box add" to define a box first.')
-                return
+                return ERROR_EXIT
             else:
                 print('ERROR: Multiple boxes defined. Must specify either --box, --dir, or --all')
-                return
+                return ERROR_EXIT
         
         if args.all:
-            reindex_all(env.get_boxes())
+            return exit_status(reindex_all(env.get_boxes()))
         elif args.dir:
             # Rebuild specific directory
             directory = args.dir
             if not os.path.isdir(directory):
                 print(f'ERROR: "{directory}" is not an existing directory!')
-                return
-            reindex_directory(directory)
+                return ERROR_EXIT
+            return exit_status(reindex_directory(directory))
         else:
             # Rebuild specific box by name
             box_name = args.box
             if not env.is_known_box(box_name):
                 print(f'ERROR: Unknown box "{box_name}"')
-                return
+                return ERROR_EXIT
             
             box = env.get_box(box_name)
             if box is None:
                 print(f'ERROR: Box "{box_name}" not found')
-                return
+                return ERROR_EXIT
             
-            reindex(box)
+            return exit_status(reindex(box))
 
 
 def index(box):
@@ -214,7 +219,7 @@ def index_all(boxes):
     '''Create or update indexes for all boxes.'''
     if not boxes:
         print('No boxes defined')
-        return
+        return True
     
     print(f'Indexing {len(boxes)} box(es)...')
     success_count = 0
@@ -224,6 +229,7 @@ def index_all(boxes):
             success_count += 1
     
     print(f'Completed: {success_count}/{len(boxes)} boxes indexed successfully')
+    return success_count == len(boxes)
 
 
 class CmdIndex(Command):
@@ -248,34 +254,33 @@ class CmdIndex(Command):
             boxes = env.get_boxes()
             if len(boxes) == 1:
                 # Auto-use the single box
-                index(boxes[0])
-                return
+                return exit_status(index(boxes[0]))
             elif len(boxes) == 0:
                 print('ERROR: No boxes defined. Use "bead box add" to define a box first.')
-                return
+                return ERROR_EXIT
             else:
                 print('ERROR: Multiple boxes defined. Must specify either --box, --dir, or --all')
-                return
+                return ERROR_EXIT
         
         if args.all:
-            index_all(env.get_boxes())
+            return exit_status(index_all(env.get_boxes()))
         elif args.dir:
             # Index specific directory
             directory = args.dir
             if not os.path.isdir(directory):
                 print(f'ERROR: "{directory}" is not an existing directory!')
-                return
-            index_directory(directory)
+                return ERROR_EXIT
+            return exit_status(index_directory(directory))
         else:
             # Index specific box by name
             box_name = args.box
             if not env.is_known_box(box_name):
                 print(f'ERROR: Unknown box "{box_name}"')
-                return
+                return ERROR_EXIT
             
             box = env.get_box(box_name)
             if box is None:
                 print(f'ERROR: Box "{box_name}" not found')
-                return
+                return ERROR_EXIT
             
-            index(box)
+            return exit_status(index(box))
-- 
2.43.0


From a233966be1b6b6a414f829f99d015fcd7258a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 57/65] fix: box index and reindex report success when the
 index can not be written

Reindexing does not remove usable index files any more, as that made
concurrent indexing of the same box fail.
---
 bead/box_index.py | 55 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index fbf846f..a878ad5 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -294,15 +294,34 @@ class BoxIndex:
     
     def rebuild(self):
         '''Rebuild index from scratch by scanning all files.'''
-        if self.index_path.exists():
-            self.index_path.unlink()
+        self._clear()
         # archives stored from now on are indexed when they are stored
         if not ensure_index(self.box_directory):
             raise BoxIndexError(f'Can not create index in {self.box_directory}')
         
         for zip_path in self.box_directory.glob('*.zip'):
-            self.index_archive_file(zip_path)
+            self._index_archive_file(zip_path)
     
+    def _clear(self):
+        '''
+        Make index empty.
+
+        The file is removed only when it is unusable as an index, as it could be in use by other processes.
+        '''
+        try:
+            with closing(sqlite3.connect(str(self.index_path))) as conn:
+                conn.execute('BEGIN IMMEDIATE')
+                conn.execute('DROP TABLE IF EXISTS inputs')
+                conn.execute('DROP TABLE IF EXISTS beads')
+                create_schema(conn)
+                is_usable = conn.execute('PRAGMA quick_check').fetchall() == [('ok',)]
+        except sqlite3.DatabaseError as e:
+            if 'locked' in str(e):
+                raise
+            is_usable = False
+        if not is_usable:
+            self.index_path.unlink(missing_ok=True)
+
     def sync(self):
         '''Add new files to index and remove deleted files.'''
         if not can_read_index(self.box_directory):
@@ -319,18 +338,24 @@ class BoxIndex:
                 
                 # Add new files to index
                 if str(relative_path) not in indexed_files:
-                    self.index_archive_file(archive_path)
+                    self._index_archive_file(archive_path)
             
             # Remove files from index that no longer exist
             orphaned_files = indexed_files - current_files
             for file_path in orphaned_files:
                 orphaned_archive_path = self.box_directory / file_path
                 self.unindex_archive_file(orphaned_archive_path)
-        except Exception:
-            pass
+        except sqlite3.Error as e:
+            raise BoxIndexError(f'Can not update index in {self.box_directory}: {e}')
     
     def index_archive_file(self, archive_path: Path):
-        '''Add single bead to index.'''
+        '''Add single bead to index, if possible.'''
+        try:
+            self._index_archive_file(archive_path)
+        except sqlite3.Error:
+            pass
+    
+    def _index_archive_file(self, archive_path: Path):
         try:
             archive = ZipArchive(archive_path, box_name='')
             archive.validate()
@@ -345,19 +370,19 @@ class BoxIndex:
                     insert_input_record(conn, archive.name, archive.content_id, input_spec)
                 
                 conn.commit()
+        except sqlite3.Error:
+            raise
         except Exception:
+            # not a bead or a damaged one
             pass
     
     def unindex_archive_file(self, archive_path: Path):
         '''Remove bead from index by file path.'''
-        try:
-            relative_path = archive_path.relative_to(self.box_directory)
-            
-            with create_update_connection(self.index_path) as conn:
-                delete_bead_record(conn, str(relative_path))
-                conn.commit()
-        except Exception:
-            pass
+        relative_path = archive_path.relative_to(self.box_directory)
+        
+        with create_update_connection(self.index_path) as conn:
+            delete_bead_record(conn, str(relative_path))
+            conn.commit()
     
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         '''Query beads from index.'''
-- 
2.43.0


From c32c9a70cd8ec5b8b5b6f22505aed1c848e496ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 58/65] fix: input update tells that all inputs are up to date
 after it could not update some of them

---
 bead_cli/input.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 1424d32..4fad90a 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -126,6 +126,7 @@ class CmdUpdate(Command):
         if args.bead_offset:
             die("--next, --prev can not be specified when updating all inputs")
         workspace = get_workspace(args)
+        all_up_to_date = True
         for input in workspace.inputs:
             try:
                 bead = search(env.get_boxes()).by_kind(input.kind).at_or_older(args.bead_time).newest()
@@ -138,9 +139,12 @@ class CmdUpdate(Command):
                         + f' no other candidate found ({input.freeze_time})')
                 else:
                     warning(f'Could not find bead for "{input.name}"')
+                    all_up_to_date = False
             else:
-                _update_input(workspace, input, archive)
-        print('All inputs are up to date.')
+                if not _update_input(workspace, input, archive):
+                    all_up_to_date = False
+        if all_up_to_date:
+            print('All inputs are up to date.')
 
     def update_one_input(self, args, env):
         input_nick = args.input_nick
@@ -194,10 +198,11 @@ def _update_input(workspace, input, archive):
         print(
             f'Skipping update of {input.name}:'
             + f' it is already at requested version ({input.freeze_time})')
+        return True
     else:
         if input.kind != archive.kind:
             warning(f'Updating input "{input.name}" with a bead of different kind')
-        _check_load_with_feedback(workspace, input.name, archive)
+        return _check_load_with_feedback(workspace, input.name, archive)
 
 
 class CmdLoad(Command):
@@ -251,6 +256,7 @@ def _check_load_with_feedback(workspace: Workspace, input_nick, archive):
         verify_with_feedback(archive)
     except InvalidArchive:
         warning(f'Bead for {input_nick} is found but damaged - not loading.')
+        return False
     else:
         if workspace.is_loaded(input_nick):
             print(f'Removing current data from {input_nick}')
@@ -258,6 +264,7 @@ def _check_load_with_feedback(workspace: Workspace, input_nick, archive):
         print(f'Loading new data to {input_nick} ...', end='', flush=True)
         workspace.load(input_nick, archive)
         print(' Done')
+        return True
 
 
 class CmdUnload(Command):
-- 
2.43.0


From 0cc9a6c1241247f5afb21755f31651147156633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 59/65] fix: damaged index of a box crashes commands with an
 internal error

---
 bead/box_index.py | 4 ++--
 bead_cli/main.py  | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index a878ad5..ab40d9f 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -390,7 +390,7 @@ class BoxIndex:
             with create_query_connection(self.index_path) as conn:
                 return query_beads(conn, conditions, box_name)
         except Exception as e:
-            raise BoxIndexError(f"Failed to query index: {e}")
+            raise BoxIndexError(f"Failed to query index of {self.box_directory}: {e}")
     
     def get_file_path(self, name: str, content_id: str) -> Path:
         '''Get file path for bead.'''
@@ -403,4 +403,4 @@ class BoxIndex:
         except LookupError:
             raise
         except Exception as e:
-            raise BoxIndexError(f"Failed to get file path from index: {e}")
+            raise BoxIndexError(f"Failed to get file path from index of {self.box_directory}: {e}")
diff --git a/bead_cli/main.py b/bead_cli/main.py
index 03111ee..75eb044 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -9,6 +9,7 @@ import traceback
 
 import appdirs
 
+from bead.exceptions import BoxIndexError
 from bead.tech.fs import Path
 from bead.tech.timestamp import timestamp
 
@@ -106,7 +107,10 @@ def run(config_dir: str, argv: Sequence[str]):
             die(f'Can not create configuration directory {config_path}: {error.strerror}')
 
     env = Environment.from_dir(config_path)
-    return parser.dispatch(argv, env)
+    try:
+        return parser.dispatch(argv, env)
+    except BoxIndexError as error:
+        die(f'{error}\n(use "bead box reindex" to repair an index)')
 
 
 FAILURE_TEMPLATE = """\
-- 
2.43.0


From 5bec1326660d95dca67e2ffdeebe18ae66aa3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 60/65] fix: search during reindex shows beads without their
 inputs

---
 bead/box_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index ab40d9f..b52e6cc 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -388,6 +388,8 @@ class BoxIndex:
         '''Query beads from index.'''
         try:
             with create_query_connection(self.index_path) as conn:
+                # beads and their inputs must be from the same state of the index
+                conn.execute('BEGIN')
                 return query_beads(conn, conditions, box_name)
         except Exception as e:
             raise BoxIndexError(f"Failed to query index of {self.box_directory}: {e}")
-- 
2.43.0


From f121a42d59c283377b83c0532dbffcc0d8231ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 61/65] fix: damaged or unreadable workspace metadata and box
 registry crash commands with an internal error

---
 bead/exceptions.py      |  4 ++++
 bead/meta.py            | 15 +++++++++++++++
 bead/workspace.py       |  8 +++++++-
 bead_cli/environment.py | 21 +++++++++++++++++----
 bead_cli/main.py        |  5 ++++-
 5 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/bead/exceptions.py b/bead/exceptions.py
index 5d303b4..167345d 100644
--- a/bead/exceptions.py
+++ b/bead/exceptions.py
@@ -2,6 +2,10 @@ class InvalidArchive(Exception):
     """Not a valid bead archive"""
 
 
+class InvalidMetaData(Exception):
+    """Unreadable or malformed workspace metadata or user environment"""
+
+
 class BoxError(Exception):
     """Box operation related error"""
 
diff --git a/bead/meta.py b/bead/meta.py
index f36faf8..66a0292 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -99,6 +99,21 @@ def parse_inputs(meta):
             spec[INPUT_FREEZE_TIME])
 
 
+def check_workspace_meta(meta):
+    '''
+    Raise an exception if meta is not usable as the metadata of a workspace.
+    '''
+    if not isinstance(meta[INPUTS], dict):
+        raise ValueError(f'Malformed inputs: {meta[INPUTS]!r}')
+    kinds_and_content_ids = [meta[KIND]]
+    for input in parse_inputs(meta):
+        input.freeze_time  # raises an error if malformed
+        kinds_and_content_ids += [input.kind, input.content_id]
+    for value in kinds_and_content_ids:
+        if not isinstance(value, str):
+            raise ValueError(f'Not a string: {value!r}')
+
+
 # Archive meta:
 FREEZE_TIME = 'freeze_time'
 FREEZE_NAME = 'freeze_name'
diff --git a/bead/workspace.py b/bead/workspace.py
index 4c0c766..4fe6f9e 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -11,6 +11,7 @@ from . import tech
 from .bead import Archive
 from .bead import Bead
 from .exceptions import BoxError
+from .exceptions import InvalidMetaData
 
 # technology modules
 persistence = tech.persistence
@@ -46,7 +47,12 @@ class Workspace(Bead):
 
     @property
     def meta(self):
-        return persistence.file_load(self._meta_filename)
+        try:
+            content = persistence.file_load(self._meta_filename)
+            meta.check_workspace_meta(content)
+        except Exception as e:
+            raise InvalidMetaData(f'Damaged or unreadable file: {self._meta_filename} ({e})') from e
+        return content
 
     @meta.setter
     def meta(self, meta):
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index cdfabd7..be0ac81 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -5,6 +5,7 @@ User specific environment
 import os
 
 from bead.box import Box
+from bead.exceptions import InvalidMetaData
 from bead.tech import persistence
 from bead.tech.fs import Path
 
@@ -23,16 +24,28 @@ class Environment:
     def __init__(self, filename: Path):
         self.filename = filename
         self._content = {}
-        if os.path.exists(self.filename):
-            self.load()
+        self.load()
 
     @classmethod
     def from_dir(cls, directory):
         return cls(Path(os.path.join(directory, 'env.json')))
 
     def load(self):
-        with open(self.filename) as f:
-            self._content = persistence.load(f)
+        try:
+            content = persistence.file_load(self.filename)
+            box_specs = content.get(ENV_BOXES, [])
+            if not isinstance(box_specs, list):
+                raise ValueError(f'Malformed boxes: {box_specs!r}')
+            for box_spec in box_specs:
+                for key in (BOX_NAME, BOX_LOCATION):
+                    if not isinstance(box_spec[key], str):
+                        raise ValueError(f'Not a string: {box_spec[key]!r}')
+        except Exception as e:
+            if isinstance(e, FileNotFoundError) and not os.path.islink(self.filename):
+                # not yet saved
+                return
+            raise InvalidMetaData(f'Damaged or unreadable file: {self.filename} ({e})') from e
+        self._content = content
 
     def save(self):
         persistence.file_dump(self._content, self.filename)
diff --git a/bead_cli/main.py b/bead_cli/main.py
index 75eb044..c95eaba 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -10,6 +10,7 @@ import traceback
 import appdirs
 
 from bead.exceptions import BoxIndexError
+from bead.exceptions import InvalidMetaData
 from bead.tech.fs import Path
 from bead.tech.timestamp import timestamp
 
@@ -106,11 +107,13 @@ def run(config_dir: str, argv: Sequence[str]):
         if not os.path.isdir(config_path):
             die(f'Can not create configuration directory {config_path}: {error.strerror}')
 
-    env = Environment.from_dir(config_path)
     try:
+        env = Environment.from_dir(config_path)
         return parser.dispatch(argv, env)
     except BoxIndexError as error:
         die(f'{error}\n(use "bead box reindex" to repair an index)')
+    except InvalidMetaData as error:
+        die(str(error))
 
 
 FAILURE_TEMPLATE = """\
-- 
2.43.0


From 6a4d9b129b1c925c6544339fb616c33ca72e600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 62/65] fix: a box registry that can not be written crashes
 commands with an internal error

---
 bead_cli/environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index be0ac81..a701fa4 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -48,7 +48,10 @@ class Environment:
         self._content = content
 
     def save(self):
-        persistence.file_dump(self._content, self.filename)
+        try:
+            persistence.file_dump(self._content, self.filename)
+        except OSError as e:
+            raise InvalidMetaData(f'Can not write {self.filename} ({e.strerror})') from e
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From e95cbc90ad6f6f3857cf08d2e0d630d2238ee932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 63/65] fix: refuse archives that have sources in place of the
 areas of a workspace

---
 bead/layouts.py    | 3 +++
 bead/ziparchive.py | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bead/layouts.py b/bead/layouts.py
index 1379446..999bc2b 100644
--- a/bead/layouts.py
+++ b/bead/layouts.py
@@ -25,3 +25,6 @@ class Workspace:
     META = Path('.bead-meta')
 
     BEAD_META = META / 'bead'
+
+    # these can not be names of sources
+    RESERVED_NAMES = (INPUT.name, OUTPUT.name, TEMP.name, META.name)
diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 3d972e0..036ea5c 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -109,7 +109,13 @@ class ZipArchive(Archive):
             for name in self.zipfile.namelist()
             if name.startswith((layouts.Archive.CODE + '/', layouts.Archive.DATA + '/'))}
         parents = {parent for name in files for parent in _parent_names(name)}
-        return all(is_safe_path(name) for name in files) and not files & parents
+        reserved = {
+            f'{layouts.Archive.CODE}/{name}'
+            for name in layouts.Workspace.RESERVED_NAMES}
+        return (
+            all(is_safe_path(name) for name in files)
+            and not files & parents
+            and not reserved & (files | parents))
 
     def _bead_creation_time_is_in_the_past(self):
         read_time = timestamp.time_from_timestamp
-- 
2.43.0


From 0f8c3974069c18a3f4942a94b50bf3b68e4d6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 64/65] fix: an interrupted edit --review leaves a workspace
 that looks complete

---
 bead_cli/workspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 51e06d9..440bcf2 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -181,12 +181,12 @@ class CmdEdit(Command):
             die(f'Workspace "{workspace.name}" directory already exists'
                 ' - do you have an old checkout?')
         assert_may_be_created(workspace)
-        bead.unpack_to(workspace)
-        assert workspace.is_valid
-
         if review:
+            # before the rest: it is the metadata, unpacked last, that makes it a workspace
             output_directory = workspace.directory / layouts.Workspace.OUTPUT
             bead.unpack_data_to(output_directory)
+        bead.unpack_to(workspace)
+        assert workspace.is_valid
 
         print(f'Extracted source into {workspace.directory}')
         # XXX: try to load smaller inputs?
-- 
2.43.0


From 6aeea5430d8a6e4e7afcfc69410a48017c399f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 65/65] fix: creating the same workspace twice at the same time
 spoils it or crashes

---
 bead/workspace.py     | 14 ++++++++++----
 bead_cli/workspace.py | 10 +++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 4fe6f9e..396d9be 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -92,11 +92,9 @@ class Workspace(Bead):
         '''
         Set up an empty project structure.
 
-        Works with either an empty directory or a directory to be created.
+        Works with a directory to be created.
         '''
-        dir = self.directory
-        assert not dir.exists()
-
+        self.claim_directory()
         self.create_directories()
 
         bead_meta = {
@@ -106,6 +104,14 @@ class Workspace(Bead):
 
         assert self.is_valid
 
+    def claim_directory(self):
+        '''
+        Create the workspace directory, which must not be there yet.
+
+        Raises FileExistsError if it is, even if it has just been created by someone else.
+        '''
+        self.directory.mkdir(parents=True)
+
     def create_directories(self):
         dir = self.directory
         fs.ensure_directory(dir)
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 440bcf2..cd2b236 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -77,7 +77,10 @@ class CmdNew(Command):
         assert_may_be_created(workspace)
 
         kind = tech.identifier.uuid()
-        workspace.create(kind)
+        try:
+            workspace.create(kind)
+        except FileExistsError:
+            die(f'Directory {workspace.name} already exists.')
         print(f'Created workspace "{workspace.name}"')
 
 
@@ -181,6 +184,11 @@ class CmdEdit(Command):
             die(f'Workspace "{workspace.name}" directory already exists'
                 ' - do you have an old checkout?')
         assert_may_be_created(workspace)
+        try:
+            workspace.claim_directory()
+        except FileExistsError:
+            die(f'Workspace "{workspace.name}" directory already exists'
+                ' - do you have an old checkout?')
         if review:
             # before the rest: it is the metadata, unpacked last, that makes it a workspace
             output_directory = workspace.directory / layouts.Workspace.OUTPUT
-- 
2.43.0

