From f7ef4479f9e77600160e016af33bc6fcb569d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 01/29] fix: find beads by name in boxes even if the name has
 glob special characters

The name was used as a glob pattern, so beads called e.g. `a[1]` were never
found in a box without index, names with a leading / were crashing the search,
and archives without a full timestamp in their file name were found only
when the box was indexed.
---
 bead/box_rawfs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..73322b1 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,3 +1,4 @@
+import glob
 from typing import Iterable
 from typing import Iterator
 
@@ -6,6 +7,7 @@ from .bead import Archive
 from .bead import Bead
 from .box_query import QueryCondition
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .ziparchive import ZipArchive
 
 Path = tech.fs.Path
@@ -57,7 +59,10 @@ class RawFilesystemResolver:
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
         if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
+            if not BeadName.is_wellformed(bead_name):
+                return iter(())
+            # candidates only: the names of the found archives are still to be checked
+            pattern = glob.escape(bead_name) + '*.zip'
         else:
             pattern = '*.zip'
         return self.box_directory.glob(pattern)
-- 
2.43.0


From 7c032264bb3b6fb270258ae544343a129f6ad064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 02/29] fix: treat malformed archives as invalid archives
 instead of crashing

A single zip file with an impossible bead name, without manifest, or with
malformed metadata made every search in its box fail, and validating
an archive with corrupt content or manifest raised arbitrary errors,
that are not handled by the commands.
---
 bead/meta.py       | 22 ++++++++++++++++++++++
 bead/ziparchive.py | 28 +++++++++++++++++++---------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/bead/meta.py b/bead/meta.py
index f36faf8..c2bb4a2 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -102,3 +102,25 @@ def parse_inputs(meta):
 # Archive meta:
 FREEZE_TIME = 'freeze_time'
 FREEZE_NAME = 'freeze_name'
+
+
+# there is currently only one meta version
+# and it must match the one defined in the workspace module
+SUPPORTED_META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
+
+
+def check_archive_meta(meta):
+    '''
+    Raise an exception if meta can not be the metadata of an archive.
+    '''
+    if meta[META_VERSION] != SUPPORTED_META_VERSION:
+        raise ValueError('Unsupported meta version', meta[META_VERSION])
+    ids = [meta[KIND]]
+    freeze_times = [meta[FREEZE_TIME]]
+    for input in parse_inputs(meta):
+        ids += [input.kind, input.content_id]
+        freeze_times += [input.freeze_time_str]
+    if not all(isinstance(string, str) for string in ids + freeze_times):
+        raise ValueError('Malformed archive meta', meta)
+    for freeze_time in freeze_times:
+        time_from_timestamp(freeze_time)
diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..be80a33 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -30,7 +30,10 @@ class ZipArchive(Archive):
     def __init__(self, filename, box_name=''):
         self.archive_filename = filename
         self.box_name = box_name
-        self.name = bead_name_from_file_path(filename)
+        try:
+            self.name = bead_name_from_file_path(filename)
+        except ValueError as e:
+            raise InvalidArchive(filename) from e
         self._meta = self._load_meta()
         self._content_id = None
 
@@ -58,7 +61,11 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
-        if not all(self._checks()):
+        try:
+            is_valid = all(self._checks())
+        except Exception as e:
+            raise InvalidArchive(self.archive_filename) from e
+        if not is_valid:
             raise InvalidArchive
 
     def _checks(self):
@@ -116,12 +123,13 @@ class ZipArchive(Archive):
         return self._content_id
 
     def calculate_content_id(self):
-        # there is currently only one meta version
-        # and it must match the one defined in the workspace module
-        assert self._meta[meta.META_VERSION] == 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
-        zipinfo = self.zipfile.getinfo(layouts.Archive.MANIFEST)
-        with self.zipfile.open(zipinfo) as f:
-            return securehash.file(f, zipinfo.file_size)
+        # there is currently only one meta version - checked when loading meta
+        try:
+            zipinfo = self.zipfile.getinfo(layouts.Archive.MANIFEST)
+            with self.zipfile.open(zipinfo) as f:
+                return securehash.file(f, zipinfo.file_size)
+        except Exception as e:
+            raise InvalidArchive(self.archive_filename) from e
 
     @property
     def meta_version(self):
@@ -151,7 +159,9 @@ class ZipArchive(Archive):
     # -
     def _load_meta(self):
         try:
-            return self.zip_load(layouts.Archive.BEAD_META)
+            bead_meta = self.zip_load(layouts.Archive.BEAD_META)
+            meta.check_archive_meta(bead_meta)
+            return bead_meta
         except Exception as e:
             raise InvalidArchive(self.archive_filename) from e
 
-- 
2.43.0


From 81d2156182305ef3a6a8bee120e72d35d84adafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 03/29] fix: refuse bead names that can not be read back, when
 creating or saving a workspace

Beads of workspaces with __ in their name were written to the box,
but they could not be read back, while they broke all searches in the box.
---
 bead/box.py           | 5 ++++-
 bead_cli/workspace.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..0d38398 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -23,6 +23,7 @@ from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
@@ -446,7 +447,9 @@ class Box:
             raise BoxError(f'Box "{self.name}": directory {self.directory} does not exist')
         if not self.directory.is_dir():
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
-        
+        if not BeadName.is_wellformed(workspace.name):
+            raise BoxError(f'"{workspace.name}" can not be used as bead name')
+
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 98de29d..4eca448 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -5,6 +5,7 @@ from bead import layouts
 from bead import tech
 from bead.exceptions import BoxError
 from bead.exceptions import InvalidArchive
+from bead.meta import BeadName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -37,6 +38,7 @@ def assert_may_be_valid_name(name):
         and '/' not in name
         and '\\' not in name
         and ':' not in name
+        and BeadName.is_wellformed(name)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
-- 
2.43.0


From d1f0de1f3fba6d5ce10536bc1164b6d23c353a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 04/29] fix: refuse input names that make the workspace
 unusable

`input add` accepted names like a__b, . or .., but any later command
reading the inputs of the workspace failed with them.
---
 bead_cli/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..c95f47d 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -1,9 +1,9 @@
-import os.path
 from typing import TYPE_CHECKING
 
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +67,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
-- 
2.43.0


From b96243afcfa7ad0aaacca86693606beecf0fd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 05/29] fix: store times exactly in the box index

Converting through floats truncated times to an other microsecond,
so exact and inclusive time searches missed beads in indexed boxes,
unlike in boxes without index.
---
 bead/box_index.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..9cf9c43 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -4,6 +4,9 @@ SQLite-based index for bead storage and retrieval.
 
 import sqlite3
 from contextlib import closing
+from datetime import datetime
+from datetime import timedelta
+from datetime import timezone
 from pathlib import Path
 
 from .bead import Bead
@@ -12,6 +15,8 @@ from .exceptions import BoxIndexError
 from .meta import InputSpec
 from .ziparchive import ZipArchive
 
+UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 
 def create_update_connection(index_path: Path):
     '''Create database connection for updates and ensure schema exists.'''
@@ -126,14 +131,21 @@ def find_file_path(conn, name, content_id):
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
     if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
+        return _datetime_to_microseconds(timestamp)
     elif isinstance(timestamp, str):
         from .tech.timestamp import time_from_timestamp
         dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+        return _datetime_to_microseconds(dt)
     return timestamp
 
 
+def _datetime_to_microseconds(dt):
+    # do not use floats, they can not represent microseconds exactly
+    if dt.tzinfo is None:
+        dt = dt.astimezone()
+    return (dt - UNIX_EPOCH) // timedelta(microseconds=1)
+
+
 def unix_microseconds_to_timestamp_str(unix_microseconds):
     """Convert unix microseconds back to ISO string for Bead objects."""
     import datetime
-- 
2.43.0


From f787e19018a71282153f60373c5387aafd0c9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 06/29] fix: make box indexes work when the box path has #, ?
 or % in it

---
 bead/box_index.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 9cf9c43..342a0b5 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -31,8 +31,12 @@ def create_update_connection(index_path: Path):
 
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
-    return closing(conn)
+    return closing(connect_readonly(index_path))
+
+
+def connect_readonly(index_path: Path):
+    # as_uri() escapes characters, that have special meaning in an URI
+    return sqlite3.connect(f"{index_path.absolute().as_uri()}?mode=ro", uri=True)
 
 
 def create_schema(conn):
@@ -241,7 +245,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with closing(connect_readonly(index_path)):
             pass
         return True
     except Exception:
-- 
2.43.0


From 1cf832ba768394d1551a3d880807376abb7d890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 07/29] fix: never extract files outside of the destination
 directory

Archive members like code/../../x or data//etc/x were written outside of
the workspace.
---
 bead/ziparchive.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index be80a33..cfd181c 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -184,15 +184,22 @@ class ZipArchive(Archive):
             Extract all files from zipfile under zip_dir to fs_dir.
         '''
 
-        tech.fs.ensure_directory(fs_dir)
-
         zip_dir_prefix = zip_dir + '/'
         zip_dir_prefix_len = len(zip_dir_prefix)
 
-        for zip_path in self.zipfile.namelist():
-            if not zip_path.startswith(zip_dir_prefix):
-                continue
-            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
+        fs_path_by_zip_path = {
+            zip_path: fs_dir / zip_path[zip_dir_prefix_len:]
+            for zip_path in self.zipfile.namelist()
+            if zip_path.startswith(zip_dir_prefix)}
+
+        # refuse to write outside of fs_dir
+        for fs_path in fs_path_by_zip_path.values():
+            if not is_strictly_under(fs_path, fs_dir):
+                raise InvalidArchive(self.archive_filename)
+
+        tech.fs.ensure_directory(fs_dir)
+
+        for zip_path, fs_path in fs_path_by_zip_path.items():
             self.extract_file(zip_path, fs_path)
 
     def unpack_code_to(self, fs_dir):
@@ -205,6 +212,12 @@ class ZipArchive(Archive):
         workspace.meta = self.meta
 
 
+def is_strictly_under(path, directory):
+    path = os.path.abspath(path)
+    directory = os.path.abspath(directory)
+    return path != directory and os.path.commonpath([path, directory]) == directory
+
+
 def bead_name_from_file_path(path):
     '''
     Parse bead name from a file path.
-- 
2.43.0


From 453d43cee89aaa9fae0787c7a8a25e414697aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 08/29] fix: generate correct timestamps in the hour repeated
 at the end of daylight saving time

---
 bead/tech/timestamp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..abb30d2 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -1,5 +1,6 @@
 from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from datetime import tzinfo
 import re
 import time as _time
@@ -195,7 +196,9 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    # LocalTimezone is not good here: it is off by one hour in the hour
+    # repeated at the end of daylight saving time
+    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 6a168d652ad347614d72d0b5cd96011c5b291c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 09/29] fix: read times strictly, and refuse unreadable ones
 with ValueError only

- trailing newlines and time zone offsets of a day or more were accepted
- the character before microseconds could be anything
- an empty string was accepted as time difference
- too big time differences raised OverflowError
- time differences were off by the change in the UTC offset, if there
  was daylight saving time change in between
---
 bead/tech/timestamp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index abb30d2..3049701 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -98,7 +98,7 @@ _NAMED_REGEXPS = (
 def _compile_parser(template):
     for name, regexp in _NAMED_REGEXPS:
         template = template.replace(name, regexp)
-    match = re.compile(template + '$').match
+    match = re.compile(template).fullmatch
 
     def convert(timeish: str):
         parts = match(timeish)
@@ -112,6 +112,9 @@ def _compile_parser(template):
                 (-1 if values.get('tzsign', '+') == '-' else 1)
                 *
                 (v('tzhour', 0) * 60 + v('tzmin', 0)))
+            if abs(tzoffset) >= 24 * 60:
+                # datetime with such an offset can not be used for anything
+                raise ValueError('Time zone offset is out of range', timeish)
 
             return datetime(
                 v('year', 0),
@@ -139,7 +142,7 @@ _ISO8601_PARSERS = [
         '{YEAR}-{MONTH}-{DAY}',
         '{YEAR}{MONTH}{DAY}T{HOUR}{MINUTE}{SECOND}{TIMEZONE}',
         '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}{TIMEZONE}',
-        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}.{MICROSEC}{TIMEZONE}',
+        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}[.]{MICROSEC}{TIMEZONE}',
     )]
 
 
@@ -166,7 +169,7 @@ _TIME_UNITS = {
 }
 
 _DELTA = r'([+-]?\d+)([{units}])'.format(units='wdHMS')
-_DELTAS = '(?:{})*$'.format(_DELTA)
+_DELTAS = r'(?:{})+\Z'.format(_DELTA)
 
 
 def parse_timedelta(delta_str):
@@ -231,7 +234,7 @@ def time_from_user(timeish):
         pass
     try:
         # fall back to interpreting it as a time-delta added to `now`
-        return datetime.now(Local) + parse_timedelta(timeish)
-    except ValueError:
+        return datetime.now(timezone.utc) + parse_timedelta(timeish)
+    except (ValueError, OverflowError):
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From 84974f42ea8c03995512bfe1685535223ddf2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 10/29] fix: do not lose the known boxes or the workspace
 metadata in a crash

The files were truncated before writing the new content.
---
 bead/tech/persistence.py | 7 ++++++-
 bead_cli/environment.py  | 3 +--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..554b59b 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -4,6 +4,7 @@ Functions to persist python structures or load them.
 
 import io
 import json
+import os
 
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
@@ -55,5 +56,9 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
+    # write to a temporary file first, so that content is never lost
+    # by overwriting it only partially
+    temp_path = f'{path}.tmp'
+    with open(temp_path, 'w') as f:
         dump(content, f)
+    os.replace(temp_path, path)
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From 55efab4da635602f23a9f3f456c5291a46fc5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 11/29] fix: interrupted or failed loading or unloading does
 not leave partially loaded inputs

A partially extracted or partially removed input directory was treated
as a loaded input. The reference to the bead was also changed before
the data was known to be good.
---
 bead/workspace.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..4688c73 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -156,16 +156,33 @@ class Workspace(Bead):
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
         try:
-            self.add_input(
-                input_nick,
-                archive.kind, archive.content_id, archive.freeze_time_str)
             destination_dir = input_dir / input_nick
-            archive.unpack_data_to(destination_dir)
-            for f in fs.all_subpaths(destination_dir):
-                fs.make_readonly(f)
+            # an input is either not loaded or it is complete
+            partial_dir = self._partial_input_dir(input_nick)
+            self._remove_partial_input(input_nick)
+            try:
+                archive.unpack_data_to(partial_dir)
+                for f in fs.all_subpaths(partial_dir):
+                    fs.make_readonly(f)
+                self.add_input(
+                    input_nick,
+                    archive.kind, archive.content_id, archive.freeze_time_str)
+                os.rename(partial_dir, destination_dir)
+            except BaseException:
+                self._remove_partial_input(input_nick)
+                raise
         finally:
             fs.make_readonly(input_dir)
 
+    def _partial_input_dir(self, input_nick):
+        # input names can not have __ in them, so it is not an input
+        return self.directory / layouts.Workspace.INPUT / f'{input_nick}__partial'
+
+    def _remove_partial_input(self, input_nick):
+        partial_dir = self._partial_input_dir(input_nick)
+        if os.path.lexists(partial_dir):
+            fs.rmtree(partial_dir)
+
     def unload(self, input_nick):
         '''
         Remove files for given input
@@ -174,7 +191,9 @@ class Workspace(Bead):
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
         try:
-            fs.rmtree(input_dir / input_nick)
+            self._remove_partial_input(input_nick)
+            os.rename(input_dir / input_nick, self._partial_input_dir(input_nick))
+            self._remove_partial_input(input_nick)
         finally:
             fs.make_readonly(input_dir)
 
-- 
2.43.0


From 274107150d3b63b30d2a8c77c3cde4e931eaf998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 12/29] fix: do not change permissions outside of the input
 directory when it is a symbolic link

---
 bead/tech/fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index e0ecac6..9bde6d3 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -61,6 +61,9 @@ def all_subpaths(dir: Path, followlinks=False):
 
 
 def rmtree(root: Path, *args, **kwargs):
+    if os.path.islink(root):
+        os.unlink(root)
+        return
     for path in all_subpaths(root, followlinks=False):
         if not os.path.islink(path):
             make_writable(path)
-- 
2.43.0


From a528e573d828cf5eff5f67c59c13f54b3544213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 13/29] fix: input load looks for the bead in the remaining
 boxes after a failing archive

---
 bead_cli/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index c95f47d..15fc2e7 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -228,7 +228,7 @@ def _load(env, workspace, input):
                 bead = box.search().by_content_id(content_id).first()
                 archive = box.resolve(bead)
                 break
-            except LookupError:
+            except (LookupError, ValueError, InvalidArchive):
                 continue
         if archive is None:
             warning(f'Could not find bead for input "{input.name}" - not loaded!')
-- 
2.43.0


From 74ea84c8804dbc8a666d35a52f13a8cd267b92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 14/29] fix: beads stored in more than one box have their input
 links only once in the web

---
 bead_cli/web/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..c0bbea4 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -45,7 +45,7 @@ class Sketch:
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                for bead in tuple(bead_index.values())))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From 894fc58f7dc56ab39c37902f4a73719bd1470052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 15/29] fix: web filtering keeps matching clusters that have no
 links

---
 bead_cli/web/sketch.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index c0bbea4..07a77cc 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -192,28 +192,13 @@ class ClusterFilter:
         ]
 
     def get_filtered_by_refs(self, encoded_refs) -> Sketch:
-        src_dest_pairs = self.convert_to_name_pairs(self.sketch.edges)
+        # clusters without links to other clusters are to be kept, too
         clusters_to_keep = {r.name for r in encoded_refs}
-        cluster_edges_to_keep = {
-            (src, dest)
-            for src, dest in src_dest_pairs
-            if src in clusters_to_keep and dest in clusters_to_keep
-        }
-        encoded_edges = [
-            Edge(
-                self.dummy_by_name[src],
-                self.dummy_by_name[dest],
-            )
-            for src, dest in cluster_edges_to_keep
-        ]
-        return self.get_filtered_by_edges(encoded_edges)
-
-    def get_filtered_by_edges(self, encoded_edges: Iterable[Edge]) -> Sketch:
-        src_dest_pairs = self.convert_to_name_pairs(encoded_edges)
-        bead_names = {src for src, _ in src_dest_pairs} | {dest for _, dest in src_dest_pairs}
-        assert bead_names - set(self.dummy_by_name) == set()
-        beads = tuple(b for b in self.sketch.beads if b.name in bead_names)
-        edges = tuple(e for e in self.sketch.edges if (e.src.name, e.dest.name) in src_dest_pairs)
+        assert clusters_to_keep - set(self.dummy_by_name) == set()
+        beads = tuple(b for b in self.sketch.beads if b.name in clusters_to_keep)
+        edges = tuple(
+            e for e in self.sketch.edges
+            if e.src.name in clusters_to_keep and e.dest.name in clusters_to_keep)
         return Sketch(beads, edges).drop_deleted_inputs()
 
     def convert_to_name_pairs(self, edges: Iterable[Edge]) -> Set[Tuple[str, str]]:
-- 
2.43.0


From cd6009053c9f9469acc1904ce5e939aa19e5e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 16/29] fix: escape backslashes in DOT output

---
 bead_cli/web/graphviz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index b7016ca..2d086cc 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -27,7 +27,7 @@ digraph {{
 
 
 def node_cluster(bead):
-    id = bead.name.replace('"', '\\"')
+    id = bead.name.replace('\\', '\\\\').replace('"', '\\"')
     return f'"cluster_{id}"'
 
 
@@ -113,7 +113,7 @@ class Context:
         after_label = [dest]
         silent_helper_nodes = []
         color = bead_color(bead_src) if not is_auxiliary_edge else 'grey90'
-        label = html.escape(name)
+        label = html.escape(name).replace('\\', '\\\\')
 
         # add auxiliary nodes before label
         for _ in range(4):
-- 
2.43.0


From 626a421a9672c585a2aa9b93fa4251359024607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 17/29] fix: rebuilding the index of a box without beads keeps
 the index

---
 bead/box_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index 342a0b5..b7573d3 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -277,6 +277,8 @@ class BoxIndex:
         '''Rebuild index from scratch by scanning all files.'''
         if self.index_path.exists():
             self.index_path.unlink()
+        # the index is there even if there is nothing to be indexed
+        ensure_index(self.box_directory)
         
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
-- 
2.43.0


From 064fef8d83e011415bfd36b9ca94907bb650a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 18/29] fix: a damaged archive does not hide its undamaged
 copies from input load

---
 bead_cli/input.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 15fc2e7..5a0c2e7 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -220,29 +220,39 @@ class CmdLoad(Command):
 def _load(env, workspace, input):
     assert input is not None
     if not workspace.is_loaded(input.name):
-        content_id = input.content_id
-        archive = None
-        for box in env.get_boxes():
+        found = False
+        for archive in _archives_by_content_id(env.get_boxes(), input.content_id):
+            found = True
+            # a damaged archive does not hide its undamaged copies
+            if _check_load_with_feedback(workspace, input.name, archive):
+                break
+        if not found:
+            warning(f'Could not find bead for input "{input.name}" - not loaded!')
+    else:
+        print(f'"{input.name}" is already loaded - skipping')
+
+
+def _archives_by_content_id(boxes, content_id):
+    for box in boxes:
+        try:
             # Only try to find by exact content_id match
+            beads = box.search().by_content_id(content_id).all()
+        except (LookupError, ValueError, InvalidArchive):
+            continue
+        for bead in beads:
             try:
-                bead = box.search().by_content_id(content_id).first()
                 archive = box.resolve(bead)
-                break
             except (LookupError, ValueError, InvalidArchive):
                 continue
-        if archive is None:
-            warning(f'Could not find bead for input "{input.name}" - not loaded!')
-            return
-        _check_load_with_feedback(workspace, input.name, archive)
-    else:
-        print(f'"{input.name}" is already loaded - skipping')
+            yield archive
 
 
-def _check_load_with_feedback(workspace: Workspace, input_nick, archive):
+def _check_load_with_feedback(workspace: Workspace, input_nick, archive) -> bool:
     try:
         verify_with_feedback(archive)
     except InvalidArchive:
         warning(f'Bead for {input_nick} is found but damaged - not loading.')
+        return False
     else:
         if workspace.is_loaded(input_nick):
             print(f'Removing current data from {input_nick}')
@@ -250,6 +260,7 @@ def _check_load_with_feedback(workspace: Workspace, input_nick, archive):
         print(f'Loading new data to {input_nick} ...', end='', flush=True)
         workspace.load(input_nick, archive)
         print(' Done')
+        return True
 
 
 class CmdUnload(Command):
-- 
2.43.0


From 226757cb5667b6b1f5f1ee87633fd03a358698ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 19/29] fix: an interrupted save leaves no partial archive in
 the box

---
 bead/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 4688c73..4b89611 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -117,7 +117,7 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
-        except (RuntimeError, Exception):
+        except BaseException:
             if zipfilename.exists():
                 zipfilename.unlink()
             raise
-- 
2.43.0


From cd2d4ee563ef4861b59a5079f9b762dcd11121ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 20/29] fix: new writes the metadata of the workspace
 atomically

---
 bead/workspace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 4b89611..6f20d07 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -94,9 +94,8 @@ class Workspace(Bead):
         bead_meta = {
             meta.KIND: kind,
             meta.INPUTS: {}}
-        fs.write_file(
-            dir / layouts.Workspace.BEAD_META,
-            persistence.dumps(bead_meta))
+        # written atomically, as it makes the directory a valid workspace
+        self.meta = bead_meta
 
         assert self.is_valid
 
-- 
2.43.0


From 9a8548d8ef594362c5653bbf01c7d5ff5db2ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 21/29] fix: web commands can follow view

---
 bead_cli/web/commands.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 4fd113b..df2f11e 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -192,6 +192,7 @@ class View(ProcessorWithFileName):
     def __call__(self, sketch):
         print(f"Viewing {self.file_name}")
         webbrowser.open(self.file_name.as_posix())
+        return sketch
 
 
 class Filter(SketchProcessor):
-- 
2.43.0


From 96905838915bec28a3b8045dc6cb3678be667e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 22/29] fix: input update with an unknown bead name is refused
 like input add

---
 bead_cli/input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 5a0c2e7..1c36ee9 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -172,7 +172,10 @@ class CmdUpdate(Command):
             # path or new bead by name - same as input add, edit
             if args.bead_offset:
                 die('--prev/--next is not supported when an input is replaced with another bead')
-            archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            try:
+                archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            except LookupError:
+                die(f'Not a known bead name: {bead_ref_base}')
         if archive:
             _update_input(workspace, input, archive)
         else:
-- 
2.43.0


From ebf7374275b1154d8cdbfbd0c724090fb328a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 23/29] fix: a bead that can not be opened is reported and does
 not stop updating other inputs

---
 bead_cli/input.py     | 9 +++++++++
 bead_cli/workspace.py | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 1c36ee9..180bdee 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -77,6 +77,8 @@ class CmdAdd(Command):
             bead = resolve_bead(env, bead_ref_base, args.bead_time)
         except LookupError:
             die(f'Not a known bead name: {bead_ref_base}')
+        except (InvalidArchive, ValueError):
+            die(f'Bead is damaged: {bead_ref_base}')
 
         _check_load_with_feedback(workspace, args.input_nick, bead)
 
@@ -136,6 +138,9 @@ class CmdUpdate(Command):
                         + f' no other candidate found ({input.freeze_time})')
                 else:
                     warning(f'Could not find bead for "{input.name}"')
+            except (InvalidArchive, ValueError):
+                # the other inputs are still to be updated
+                warning(f'Bead for {input.name} is found but damaged - not loading.')
             else:
                 _update_input(workspace, input, archive)
         print('All inputs are up to date.')
@@ -168,6 +173,8 @@ class CmdUpdate(Command):
                 archive = resolve(boxes, bead)
             except LookupError:
                 die(f'Could not find bead for "{input.name}"')
+            except (InvalidArchive, ValueError):
+                die(f'Bead for {input.name} is found but damaged - not loading.')
         else:
             # path or new bead by name - same as input add, edit
             if args.bead_offset:
@@ -176,6 +183,8 @@ class CmdUpdate(Command):
                 archive = resolve_bead(env, bead_ref_base, args.bead_time)
             except LookupError:
                 die(f'Not a known bead name: {bead_ref_base}')
+            except (InvalidArchive, ValueError):
+                die(f'Bead is damaged: {bead_ref_base}')
         if archive:
             _update_input(workspace, input, archive)
         else:
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 4eca448..e4b9100 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -146,6 +146,8 @@ class CmdEdit(Command):
             bead = resolve_bead(env, args.bead_ref_base, args.bead_time)
         except LookupError:
             die('Bead not found!')
+        except (InvalidArchive, ValueError):
+            die('Bead is damaged')
         try:
             verify_with_feedback(bead)
         except InvalidArchive:
-- 
2.43.0


From 5a54c8eac1836f3074725c981a940ef4fd57f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 24/29] fix: saves at the same time do not overwrite each
 other's archive

---
 bead/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 6f20d07..ae2f114 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -116,6 +116,9 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
+        except FileExistsError:
+            # somebody else has just created it
+            raise
         except BaseException:
             if zipfilename.exists():
                 zipfilename.unlink()
@@ -268,7 +271,7 @@ class _ZipCreator:
         try:
             with zipfile.ZipFile(
                 zip_file_name,
-                mode='w',
+                mode='x',
                 compression=compression,
                 allowZip64=True,
             ) as self.zipfile:
-- 
2.43.0


From 7858bc07c384003792c546d35cef9a8c6922918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 25/29] fix: add the new archive to an index created during the
 save

---
 bead/box.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box.py b/bead/box.py
index 0d38398..3a38438 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -453,7 +453,8 @@ class Box:
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
-        # Add to resolver
+        # Add to resolver - an index could have been created while packing
+        self.resolver = self._create_resolver()
         self.resolver.index_archive_file(zipfilename)
         
         return zipfilename
-- 
2.43.0


From 7bd3ed28ebcab6b75ed25aea9e068c2da448f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 26/29] fix: read beads and their inputs from the same state of
 the index

---
 bead/box_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index b7573d3..2479164 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -196,6 +196,8 @@ def query_beads(conn, conditions, box_name):
         sql += ' WHERE ' + ' AND '.join(where_parts)
     sql += ' ORDER BY freeze_time_unix'
     
+    # beads and their inputs are read from the same state of the index
+    conn.execute('BEGIN')
     cursor = conn.execute(sql, parameters)
     
     beads = []
-- 
2.43.0


From 0bce59ba481275bd384668fe8e427c00f379b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 27/29] fix: a file changed during a save does not make the
 archive invalid

---
 bead/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index ae2f114..7af5d70 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -236,9 +236,11 @@ class _ZipCreator:
     def add_file(self, path, zip_path: str):
         assert self.zipfile
         self.zipfile.write(path, zip_path)
+        # hash what was archived, as the file could have been changed since
+        info = self.zipfile.getinfo(zip_path)
         self.add_hash(
             zip_path,
-            securehash.file(open(path, 'rb'), os.path.getsize(path)))
+            securehash.file(self.zipfile.open(info), info.file_size))
 
     def add_path(self, path, zip_path):
         if os.path.isdir(path):
-- 
2.43.0


From 879d75e6907cfd8222dcb0ed5242ffff7b50206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 28/29] fix: indexing a box reports failures to write the index

---
 bead/box_index.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 2479164..16938c5 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -276,17 +276,30 @@ class BoxIndex:
         ensure_index(self.box_directory)
     
     def rebuild(self):
-        '''Rebuild index from scratch by scanning all files.'''
+        '''
+        Rebuild index from scratch by scanning all files.
+
+        Raises BoxIndexError if the index could not be written.
+        '''
         if self.index_path.exists():
             self.index_path.unlink()
         # the index is there even if there is nothing to be indexed
-        ensure_index(self.box_directory)
+        if not ensure_index(self.box_directory):
+            raise BoxIndexError(f'Can not create index {self.index_path}')
         
+        error = None
         for zip_path in self.box_directory.glob('*.zip'):
-            self.index_archive_file(zip_path)
+            error = self.index_archive_file(zip_path) or error
+        if error:
+            raise BoxIndexError(f'Failed to update index: {error}')
     
     def sync(self):
-        '''Add new files to index and remove deleted files.'''
+        '''
+        Add new files to index and remove deleted files.
+
+        Raises BoxIndexError if the index could not be read or written.
+        '''
+        error = None
         try:
             with create_query_connection(self.index_path) as conn:
                 indexed_files = get_indexed_files(conn)
@@ -299,18 +312,20 @@ class BoxIndex:
                 
                 # Add new files to index
                 if str(relative_path) not in indexed_files:
-                    self.index_archive_file(archive_path)
+                    error = self.index_archive_file(archive_path) or error
             
             # Remove files from index that no longer exist
             orphaned_files = indexed_files - current_files
             for file_path in orphaned_files:
                 orphaned_archive_path = self.box_directory / file_path
-                self.unindex_archive_file(orphaned_archive_path)
-        except Exception:
-            pass
+                error = self.unindex_archive_file(orphaned_archive_path) or error
+        except Exception as e:
+            error = e
+        if error:
+            raise BoxIndexError(f'Failed to update index: {error}')
     
     def index_archive_file(self, archive_path: Path):
-        '''Add single bead to index.'''
+        '''Add single bead to index, returns the error if the index could not be written.'''
         try:
             archive = ZipArchive(archive_path, box_name='')
             archive.validate()
@@ -325,19 +340,21 @@ class BoxIndex:
                     insert_input_record(conn, archive.name, archive.content_id, input_spec)
                 
                 conn.commit()
-        except Exception:
-            pass
+        except Exception as e:
+            # files, that are not beads are just not indexed
+            if isinstance(e, sqlite3.OperationalError) or type(e) is sqlite3.DatabaseError:
+                return e
     
     def unindex_archive_file(self, archive_path: Path):
-        '''Remove bead from index by file path.'''
+        '''Remove bead from index by file path, returns the error if that has failed.'''
         try:
             relative_path = archive_path.relative_to(self.box_directory)
             
             with create_update_connection(self.index_path) as conn:
                 delete_bead_record(conn, str(relative_path))
                 conn.commit()
-        except Exception:
-            pass
+        except Exception as e:
+            return e
     
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         '''Query beads from index.'''
-- 
2.43.0


From 59bc70c5279f683cc745ecc42848ec41ee06db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 29/29] fix: files with dates that can not be stored in zip
 files can be saved

---
 bead/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/workspace.py b/bead/workspace.py
index 7af5d70..6f1069a 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -276,6 +276,8 @@ class _ZipCreator:
                 mode='x',
                 compression=compression,
                 allowZip64=True,
+                # files can be older than the oldest time supported by zip files
+                strict_timestamps=False,
             ) as self.zipfile:
                 self.zipfile.comment = comment.encode('utf-8')
                 self.add_data(workspace)
-- 
2.43.0

