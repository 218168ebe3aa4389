From 1eb8c9bf29a0e38fa1974a83b1c1c74a94a46c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 01/48] fix: refresh() forgets the previous content when the
 file is empty or gone

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..ede32c3 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # Forget what was known about the previous content of the file
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From 2382763c80ab08f294bc7a9587a1b527b6eafcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 02/48] fix: read_sets() refreshes before it decides which sets
 to read

---
 pyuff/pyuff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index ede32c3..7fabce8 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -262,6 +262,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -269,11 +274,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From a107a3a8088123bc9c610277b46909da78da3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 03/48] fix: get_set_formats() recognises binary data-sets

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 7fabce8..c0dc439 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -232,7 +232,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From 799d7d13db96235a63210bfb73f357c9ef32e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 04/48] fix: a binary data-set 58 no longer reopens (and in
 overwrite mode empties) the file

---
 pyuff/datasets/dataset_58.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..c6d5cc1 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,12 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
-            # write data
+            # write data; the text written so far has to come first
+            fh.flush()
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 8e72d94bd646df5cde72c8c3fc0d13c8e95f89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 05/48] fix: a data-set that cannot be written leaves the file
 as it was

---
 pyuff/pyuff.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index c0dc439..25430c7 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -40,6 +40,7 @@ Notes:
     >>> uff_file.file_exists()
     True
 """
+import io
 import os
 import numpy as np
 import warnings
@@ -421,26 +422,16 @@ class UFF:
         an alias (aka pointer), this is reflected at the caller too.
         
         """
-        if mode.lower() == 'overwrite':
-            # overwrite mode
-            try:
-                fh = open(self._filename, 'wt', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        elif mode.lower() == 'add':
-            # add (append) mode
-            try:
-                fh = open(self._filename, 'at', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        else:
+        if mode.lower() not in ['overwrite', 'add']:
             raise Exception('Unknown mode: ' + mode)
+        # The data-set is composed in memory first: a data-set that can not be
+        # written must not leave anything in the file
+        fh = io.TextIOWrapper(io.BytesIO(), encoding='utf-8')
         try:
             # Actual writing
             try:
                 set_type = dset['type']
             except:
-                fh.close()
                 raise Exception('Data-set\'s dictionary is missing the required \'type\' key')
             # handle nan or inf
             if 'data' in dset.keys():
@@ -479,11 +470,26 @@ class UFF:
             else:
                 # Unsupported data-set - do nothing
                 pass
-        except:
+            fh.flush()
+            block_data = fh.buffer.getvalue()
+        finally:
             fh.close()
-            raise  # re-raise the last exception
+        # The file is about to change
+        self._refreshed = False
+        if mode.lower() == 'overwrite':
+            # overwrite mode
+            try:
+                fh = open(self._filename, 'wb')
+            except:
+                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         else:
-            fh.close()
+            # add (append) mode
+            try:
+                fh = open(self._filename, 'ab')
+            except:
+                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+        with fh:
+            fh.write(block_data)
         self.refresh()
 
 
-- 
2.43.0


From 27ba0a29619e130fcd3eeadeca1a3e1bc1a0389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 06/48] fix: a single-precision binary data-set 58 is written
 as its header says

---
 pyuff/datasets/dataset_58.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index c6d5cc1..742c683 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -892,6 +892,8 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
             n_bytes = num_pts * 4
+        # every point takes 1 value (2 if complex), plus its abscissa if uneven
+        n_bytes = n_bytes * (2 - is_r + (not dset['abscissa_spacing']))
 
         if 'n_bytes' in dset.keys():
             dset['n_bytes'] = n_bytes
@@ -958,14 +960,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
         if dset['binary']:
             # write data; the text written so far has to come first
             fh.flush()
+            fmt = 'd' if is_double else 'f'
             if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<' + fmt, datai)) for datai in data]
             else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('>' + fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 3c41b1a9b42ccdfafe9e98e3594d58e47f602f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 07/48] fix: a value -1 or an unfinished data-set no longer
 shifts the data-sets that follow

---
 pyuff/pyuff.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 25430c7..27f9745 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -42,6 +42,7 @@ Notes:
 """
 import io
 import os
+import re
 import numpy as np
 import warnings
 warnings.simplefilter("default")
@@ -65,6 +66,9 @@ from .datasets.dataset_2467 import _write2467, _extract2467, get_structure_2467
 
 _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
 
+# a tag that opens a data-set: its next line gives the data-set number
+_OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *[\r\n])')
+
 
 class UFF:
     """
@@ -204,6 +208,30 @@ class UFF:
                         b'                                                                          ':
                         block_ind.append(ind)
                     
+                # Pairs the tags. A tag followed by a data-set number opens a
+                # data-set: if the previous data-set is still open, it has never
+                # been finished (interrupted writing) and it is skipped. A tag
+                # after other data in its line is a value of that data, unless
+                # nothing but the next data-set or the end of the file follows.
+                tags = block_ind
+                block_ind = []
+                si = None  # start offset of the open data-set
+                for ii in range(0, len(tags)):
+                    ind = tags[ii]
+                    if _OPENING_TAG.match(data, ind):
+                        si = ind
+                    elif ind > 0 and data[ind-1] not in [10, 13]:
+                        ei = tags[ii+1] if ii+1 < len(tags) else data_len
+                        if si is not None and data[ind+6:ei].strip() == b'' and \
+                            (ei == data_len or _OPENING_TAG.match(data, ei)):
+                            block_ind.extend([si, ind])
+                            si = None
+                    elif si is None:
+                        si = ind
+                    else:
+                        block_ind.extend([si, ind])
+                        si = None
+
                 block_ind = np.asarray(block_ind, dtype='int64')
 
                 # Constructs block indices of start and end values; each pair
-- 
2.43.0


From b0735660ee2d536bac12a37e040a5ee4cd73cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 08/48] fix: an added data-set starts in a new line even if the
 file does not end with one

---
 pyuff/pyuff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 27f9745..44eec7d 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -513,10 +513,15 @@ class UFF:
         else:
             # add (append) mode
             try:
-                fh = open(self._filename, 'ab')
+                fh = open(self._filename, 'ab+')
             except:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         with fh:
+            if fh.tell() > 0 and block_data:
+                # the data-set must start in a new line
+                fh.seek(-1, os.SEEK_END)
+                if fh.read(1) not in [b'\n', b'\r']:
+                    block_data = b'\n' + block_data
             fh.write(block_data)
         self.refresh()
 
-- 
2.43.0


From c9ec8940f18d43c15ed7476ed63c9657e6c2adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 09/48] fix: data-set 82 with repeated nodes is written
 completely

---
 pyuff/datasets/dataset_82.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..b41a6b7 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -52,15 +52,16 @@ def _write82(fh, dset):
         # write strings to the file
         # removed jul 2017: unique_nodes = set(dset['nodes'])
         # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        # zeros that only fill up the last line are counted once
+        n_nodes = len(dset['nodes'])
+        while n_nodes > 1 and dset['nodes'][n_nodes - 1] == 0 and dset['nodes'][n_nodes - 2] == 0:
+            n_nodes -= 1
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
         sl = 0
-        n8_blocks = n_nodes // 8
-        rem_lines = n_nodes % 8
+        n8_blocks = len(dset['nodes']) // 8
+        rem_lines = len(dset['nodes']) % 8
         if n8_blocks:
             for ii in range(0, n8_blocks):
                 #                 fh.write( string.join(['%10i'%line_n for line_n in dset['lines'][sl:sl+8]],'')+'\n' )
-- 
2.43.0


From 9d83a689b8196851cd4298d1f24ca9f0355d8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 10/48] fix: the dates and times data-set 151 fills in describe
 one instant

---
 pyuff/datasets/dataset_151.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..951303a 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -47,8 +47,9 @@ Record 7:       FORMAT(10A1,10A1)
 def _write151(fh, dset):
     """Writes dset data - data-set 151 - to an open file fh."""
     try:
-        ds = time.strftime('%d-%b-%y', time.localtime())
-        ts = time.strftime('%H:%M:%S', time.localtime())
+        now = time.localtime()
+        ds = time.strftime('%d-%b-%y', now)
+        ts = time.strftime('%H:%M:%S', now)
         # handle optional fields
         dset = _opt_fields(dset, {'version_db1': '0',
                                         'version_db2': '0',
-- 
2.43.0


From 45f4699d5269b94e29d802a70e790e00a7c63b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 11/48] fix: data-set 151 keeps the date and time written given
 to prepare_151

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 951303a..1821ee5 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -58,8 +58,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        'date_file_written': dset.get('date_db_written', ds),
+                                        'time_file_written': dset.get('time_db_written', ts)})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80s\n' % dset['model_name'])
-- 
2.43.0


From a3c304974a56aa64083dc0ddfa28f886daa00f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 12/48] fix: data-set 2412 writes beams as it reads them, not
 only rods

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..b1ae496 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -60,7 +60,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in [11, 21, 22, 23, 24]:
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
-- 
2.43.0


From 1ec61316507d212bb1c9e45754cf3f77565344c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 13/48] fix: data-set 2414 keeps negative values of records 12
 and 13 in their columns

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From 6fed7439d217476c3ed736e1613e7960b9746da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 14/48] fix: data-set 2414 with dataset_location 5 is closed
 when written

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..d4b58fe 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From 9d20113217380c6e22333c371f3551fd73cef6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 15/48] fix: data-set 2429 writes all its groups and all their
 entities

---
 pyuff/datasets/dataset_2429.py | 59 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..fbdceb3 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,36 +111,39 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
-            # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        # there can be multiple groups in the data-set; a data-set without 'groups' is itself the only group
+        for group in dset.get('groups', [dset]):
+            group = _opt_fields(group, dict)
+
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'], 
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                len(group['entity_type_code'])))
+            # Record 2
+            fh.write('%-40s\n' % (group['group_name']))
+
+            # Record 3-N
+            # Write the full lines (which have 4 pairs)
+            for i in range(len(group['entity_type_code']) // 4):
+                fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['entity_type_code'][i * 4], group['entity_tag'][i * 4],
+                                                                    group['entity_type_code'][i * 4 + 1], group['entity_tag'][i * 4 + 1],
+                                                                    group['entity_type_code'][i * 4 + 2], group['entity_tag'][i * 4 + 2],
+                                                                    group['entity_type_code'][i * 4 + 3], group['entity_tag'][i * 4 + 3]))
+            # Write the last line
+            for i in range(len(group['entity_type_code']) // 4 * 4, len(group['entity_type_code'])):
+                # don't write the line break just yet
+                fh.write('%10i%10i' % (group['entity_type_code'][i], group['entity_tag'][i]))
+            # Write the missing line break, but only if a non full last line has been written
+            if (len(group['entity_type_code']) % 4 != 0):
+                fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
-- 
2.43.0


From 6ffbce7007d48242d3ccd815fb3155450df63a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 16/48] fix: data-set 2429 reads a last group without entities

---
 pyuff/datasets/dataset_2429.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index fbdceb3..7cbd7cc 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -159,7 +159,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From 47c05d18239554b150f53bc8fd72c884b672216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 17/48] fix: prepare_group keeps the temperature and contact
 sets of the group

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 7cbd7cc..1f3a11d 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -262,8 +262,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..40f96de 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From 2341580639b50861d9aacf2fb153378ec93fc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 18/48] fix: data-set 2467 fills in the optional fields of its
 groups

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 40f96de..eeceabc 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 04f80a6326dcf3e4643245b852b9195c88cb0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 19/48] fix: reading a data-set 2467 does not print it

---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index eeceabc..e448695 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -141,8 +140,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From a3f351a3aec6a61ab9c3141b5725ab72e4db781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 20/48] fix: a negative count in data-set 2414, 2429 or 2467 no
 longer makes reading endless

---
 pyuff/datasets/dataset_2414.py | 2 ++
 pyuff/datasets/dataset_2429.py | 2 ++
 pyuff/datasets/dataset_2467.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d4b58fe..7ddbe89 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -829,6 +829,8 @@ def _extract2414(block_data):
                         numberOfLinesInRecord15 = numberOfNodes * math.ceil(numberOfValuesPerNode / 6)
                     else:
                         numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
+                    if numberOfLinesInRecord15 < 0:
+                        raise ValueError('negative number of nodes or values')
                     # a list of numpy array, since the number of lines is not fixed.
                     dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 1f3a11d..21546c4 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -168,6 +168,8 @@ def _extract2429(block_data):
             # Record 1 field 8 (last field) contains the number or entities in the group
             # max 4 items per line, last line in group doesn't necessarily contain 4 elements
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
+            if group['number_of_entities_in_group'] < 0:
+                raise ValueError('negative number of entities')
             # split all lines and then each line in separate integers. Put this in a ndarray
             values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
             # flatten the list and put in ndarray
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index e448695..9033848 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -132,6 +132,8 @@ def _extract2467(block_data):
                                 'active_contact_set_no_for_group', 'number_of_entities_in_group']))
         group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
+        if group['number_of_entities_in_group'] < 0:
+            raise ValueError('negative number of entities')
         # split all lines and then each line in separate integers. Put this in a ndarray
         values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
         # flatten the list and put in ndarray
-- 
2.43.0


From 02d587ea3f4c08b4a1f3ef7d2ebca4ed28a58fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 21/48] fix: data-set 1858 writes record 1 in the columns it is
 read from

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..1017d81 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From ce2ebe9aff91b0d11616433931604aab57fe88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 22/48] fix: fix_58b removes nothing but the newline in front
 of the closing tag

---
 pyuff/datasets/dataset_58.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 742c683..1aab71d 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1514,13 +1514,16 @@ def fix_58b(filename,fixed_filename=None):
     else:
         try:
             lines = data.splitlines(keepends=True)
+            # The newline of the file; only one is removed in front of a moved '    -1',
+            # other such characters belong to the (binary) data
+            newline = lines[0][len(lines[0].rstrip(b'\r\n')):] if lines else b''
 
             # Fix 1: Adjust ending '    -1' line
             if len(lines) >= 1 and lines[-1].strip() == b'-1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
+                    prev_line = lines[-2].removesuffix(newline)
+                    prev_line += b'    -1' + lines[-1].strip(b' -1')  # Keep the newline character
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
                 else:
@@ -1531,8 +1534,8 @@ def fix_58b(filename,fixed_filename=None):
             while i < len(lines) - 3:
                 if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
-                    data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
+                    data_line = lines[i].removesuffix(newline)  # Remove newline characters
+                    data_line += b'    -1' + lines[i+1].strip(b' -1')  # Add '    -1' and newline
                     lines[i] = data_line
                     del lines[i+1]  # Remove the now-empty line
                     # Do not increment i to recheck the new line at position i
-- 
2.43.0


From d704eebe28b24df31dfafa0232b5ce7da0f91e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 23/48] fix: complex data-set 55 with 6 values per node is
 refused, not written without r4, r5, r6

---
 pyuff/datasets/dataset_55.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..9309fd4 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -397,6 +397,8 @@ def _write55(fh, dset):
             n_data_per_node = 3
         if np.iscomplexobj(dset['r1']):
             data_type = 5
+            if n_data_per_node == 6:
+                raise ValueError('Complex data with 6 values per node can not be written')
         else:
             data_type = 2
         # Write strings to the file
-- 
2.43.0


From 3fdd9f299b9ca28a90bda81fd6a0ed4e525fb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 24/48] fix: a torn opening tag at the end of the file is
 recognised as one

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 44eec7d..cd7a184 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -67,7 +67,7 @@ from .datasets.dataset_2467 import _write2467, _extract2467, get_structure_2467
 _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
 
 # a tag that opens a data-set: its next line gives the data-set number
-_OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *[\r\n])')
+_OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *(?:[\r\n]|\Z))')
 
 
 class UFF:
-- 
2.43.0


From 00b7f1615eec0967b604bba6007f1baf09c18787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 25/48] fix: refresh() does not take a data-set for one of type
 0 when memory runs out

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index cd7a184..a64b419 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -263,7 +263,7 @@ class UFF:
                         self._set_types[ii] = int(block_data[1][0:6])
                         if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
-                    except:
+                    except (IndexError, ValueError):
                         # Some non-valid blocks found; ignore the exception
                         pass
                 del block_ind
-- 
2.43.0


From a93e0e2bf2222848c669914c130a67bc2581dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 26/48] fix: a torn opening tag does not hide the finished
 binary data-set before it

---
 pyuff/pyuff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index a64b419..f07510b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -68,6 +68,8 @@ _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2
 
 # a tag that opens a data-set: its next line gives the data-set number
 _OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *(?:[\r\n]|\Z))')
+# nothing, or what is left of an opening tag that has not been written completely
+_NO_DATA = re.compile(rb'[\s\0]*(?:-(?:1?\0+)?)?[\s\0]*')
 
 
 class UFF:
@@ -212,7 +214,8 @@ class UFF:
                 # data-set: if the previous data-set is still open, it has never
                 # been finished (interrupted writing) and it is skipped. A tag
                 # after other data in its line is a value of that data, unless
-                # nothing but the next data-set or the end of the file follows.
+                # nothing but the next data-set (possibly torn) or the end of
+                # the file follows.
                 tags = block_ind
                 block_ind = []
                 si = None  # start offset of the open data-set
@@ -222,7 +225,7 @@ class UFF:
                         si = ind
                     elif ind > 0 and data[ind-1] not in [10, 13]:
                         ei = tags[ii+1] if ii+1 < len(tags) else data_len
-                        if si is not None and data[ind+6:ei].strip() == b'' and \
+                        if si is not None and _NO_DATA.fullmatch(data, ind+6, ei) and \
                             (ei == data_len or _OPENING_TAG.match(data, ei)):
                             block_ind.extend([si, ind])
                             si = None
-- 
2.43.0


From 08362385a588f26809032fe3b56c5833b18da00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 27/48] fix: a torn opening tag does not become data of the
 finished binary data-set before it

---
 pyuff/pyuff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index f07510b..3da1df0 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -215,18 +215,21 @@ class UFF:
                 # been finished (interrupted writing) and it is skipped. A tag
                 # after other data in its line is a value of that data, unless
                 # nothing but the next data-set (possibly torn) or the end of
-                # the file follows.
+                # the file follows; after binary data it is always the end.
                 tags = block_ind
                 block_ind = []
                 si = None  # start offset of the open data-set
+                binary = False
                 for ii in range(0, len(tags)):
                     ind = tags[ii]
-                    if _OPENING_TAG.match(data, ind):
+                    opening = _OPENING_TAG.match(data, ind)
+                    if opening:
                         si = ind
+                        binary = opening.group().lower().endswith(b'b')
                     elif ind > 0 and data[ind-1] not in [10, 13]:
                         ei = tags[ii+1] if ii+1 < len(tags) else data_len
                         if si is not None and _NO_DATA.fullmatch(data, ind+6, ei) and \
-                            (ei == data_len or _OPENING_TAG.match(data, ei)):
+                            (binary or ei == data_len or _OPENING_TAG.match(data, ei)):
                             block_ind.extend([si, ind])
                             si = None
                     elif si is None:
-- 
2.43.0


From 285781562555de88f6c04f55016ef9e6c0077df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 28/48] fix: a closing tag with NUL bytes behind it is
 recognised

---
 pyuff/pyuff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 3da1df0..bb4715d 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -202,8 +202,9 @@ class UFF:
                         break
                     if ind+6 == data_len:
                         block_ind.append(ind)
-                    # Check if the block is valid and ends with LF or CR
-                    elif ind+6 < data_len and data[ind+6] in [10, 13]:
+                    # Check if the block is valid and ends with LF or CR (or with
+                    # NUL bytes, which a power failure may leave behind)
+                    elif ind+6 < data_len and data[ind+6] in [0, 10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
                     elif ind+80 < data_len and data[ind+6:ind+80] == \
-- 
2.43.0


From 84d9f917d74b744e79e3b60760526877911f2f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 29/48] fix: a value -1 in front of a number alone in its line
 does not open a data-set

---
 pyuff/pyuff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index bb4715d..ad784d5 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -223,11 +223,12 @@ class UFF:
                 binary = False
                 for ii in range(0, len(tags)):
                     ind = tags[ii]
-                    opening = _OPENING_TAG.match(data, ind)
+                    in_line = ind > 0 and data[ind-1] not in [10, 13]
+                    opening = None if in_line else _OPENING_TAG.match(data, ind)
                     if opening:
                         si = ind
                         binary = opening.group().lower().endswith(b'b')
-                    elif ind > 0 and data[ind-1] not in [10, 13]:
+                    elif in_line:
                         ei = tags[ii+1] if ii+1 < len(tags) else data_len
                         if si is not None and _NO_DATA.fullmatch(data, ind+6, ei) and \
                             (binary or ei == data_len or _OPENING_TAG.match(data, ei)):
-- 
2.43.0


From 2d05e450898626ab897544e20aa32a7b72ae6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 30/48] fix: values -1 in front of a number alone in its line
 do not close a data-set

---
 pyuff/pyuff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index ad784d5..a49536d 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -231,7 +231,8 @@ class UFF:
                     elif in_line:
                         ei = tags[ii+1] if ii+1 < len(tags) else data_len
                         if si is not None and _NO_DATA.fullmatch(data, ind+6, ei) and \
-                            (binary or ei == data_len or _OPENING_TAG.match(data, ei)):
+                            (binary or ei == data_len or \
+                             data[ei-1] in [10, 13] and _OPENING_TAG.match(data, ei)):
                             block_ind.extend([si, ind])
                             si = None
                     elif si is None:
-- 
2.43.0


From 43cdf96deb0a8bb89dc42bdefc229b511b64d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 31/48] fix: a data-set without data is recognised in a file
 made by fix_58b

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index a49536d..91387b6 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -67,7 +67,7 @@ from .datasets.dataset_2467 import _write2467, _extract2467, get_structure_2467
 _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
 
 # a tag that opens a data-set: its next line gives the data-set number
-_OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *(?:[\r\n]|\Z))')
+_OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *(?:    -1 *)?(?:[\r\n]|\Z))')
 # nothing, or what is left of an opening tag that has not been written completely
 _NO_DATA = re.compile(rb'[\s\0]*(?:-(?:1?\0+)?)?[\s\0]*')
 
-- 
2.43.0


From cb4bdd7d7fac18a89db8ae38ddb17f418ed7a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 32/48] fix: fix_58b leaves data rows with a single value -1
 where they are

---
 pyuff/datasets/dataset_58.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1aab71d..855f10e 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1518,8 +1518,12 @@ def fix_58b(filename,fixed_filename=None):
             # other such characters belong to the (binary) data
             newline = lines[0][len(lines[0].rstrip(b'\r\n')):] if lines else b''
 
+            def is_tag(line):
+                # a value -1 in another column is data
+                return line.startswith(b'    -1') and line.strip() == b'-1'
+
             # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
+            if len(lines) >= 1 and is_tag(lines[-1]):
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = lines[-2].removesuffix(newline)
@@ -1532,7 +1536,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if (is_tag(lines[i+1]) and is_tag(lines[i+2])):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = lines[i].removesuffix(newline)  # Remove newline characters
                     data_line += b'    -1' + lines[i+1].strip(b' -1')  # Add '    -1' and newline
-- 
2.43.0


From e264c66254a2510be63f296fb656f5723b7f01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 33/48] fix: a number that fills its column is told apart from
 the one before it in data-sets 15 and 2414

---
 pyuff/datasets/dataset_15.py   |  4 ++--
 pyuff/datasets/dataset_2414.py | 10 +++++-----
 pyuff/tools.py                 |  9 +++++++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index 1f50908..6b32511 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -1,7 +1,7 @@
 from os import write
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _write_record, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _write_record, _split_numbers, check_dict_for_none
 
 def get_structure_15(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -62,7 +62,7 @@ def _extract15(block_data):
     try:
         # Body
         split_data = block_data.splitlines()
-        split_data = ''.join(split_data[2:]).split()
+        split_data = _split_numbers(''.join(split_data[2:]))
         split_data = [float(_) for _ in split_data]
 
         dset['node_nums'] = split_data[::7]
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 7ddbe89..5e225f0 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math as math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_numbers, check_dict_for_none
 
 def get_structure_2414(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -748,7 +748,7 @@ def _extract2414(block_data):
                                                 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass']))
 
             split_data = ''.join(block_data.splitlines(True)[15:])
-            split_data = split_data.split()
+            split_data = _split_numbers(split_data)
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
@@ -791,7 +791,7 @@ def _extract2414(block_data):
                 # Data at nodes
                 record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 # record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
+                record15 = [np.array([float(elem) for elem in _split_numbers(item)], float) for item in split_data[1::2]]
                 dset['node_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['data_at_node'] = record15
 
@@ -799,7 +799,7 @@ def _extract2414(block_data):
                 # Data on elements
                 record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 ## record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
+                record15 = [np.array([float(elem) for elem in _split_numbers(item)], float) for item in split_data[1::2]]
                 dset['element_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['NDVAL'] = np.array(record14[:,1].copy(), dtype=int)
                 dset['data_at_element'] = record15
@@ -832,7 +832,7 @@ def _extract2414(block_data):
                     if numberOfLinesInRecord15 < 0:
                         raise ValueError('negative number of nodes or values')
                     # a list of numpy array, since the number of lines is not fixed.
-                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
+                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in _split_numbers(item)], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
                     lineIndex = lineIndex + 1 + numberOfLinesInRecord15
 
diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..f0516ff 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -1,3 +1,4 @@
+import re
 import pyuff
 import numpy as np
 
@@ -83,6 +84,14 @@ def _parse_header_line(line, min_values, widths, types, names):
                 fields_out.update({key: 0.0})
     return fields_out
 
+def _split_numbers(text):
+    """Splits text into its numbers. A number that fills its column is not
+    separated by a blank, but by its sign, from the number before it.
+
+    :param text: a string of numbers
+    """
+    return re.sub(r'(?<=[0-9.])(?=[-+])', ' ', text).split()
+
 def _write_record(fh, values, formats, multiline=False, fstring=True):
     """Write a record to the open file using the specified formats.
 
-- 
2.43.0


From b0ce7236374a75d0ea3b5b60cbc3f48e67fce45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 34/48] fix: bytes of binary data that look like a closing tag
 do not end the data-set

---
 pyuff/pyuff.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 91387b6..ca76f8a 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -68,10 +68,35 @@ _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2
 
 # a tag that opens a data-set: its next line gives the data-set number
 _OPENING_TAG = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9](?:[bB]| *(?:    -1 *)?(?:[\r\n]|\Z))')
+# the header of a binary data-set; its first line gives the number of bytes of data behind it
+_BINARY_HEADER = re.compile(rb'    -1 *(?:\r\n|\r|\n)[ 0-9]{5}[0-9][bB].{24}([ 0-9]{11}[0-9])[^\r\n]*'
+                            rb'(?:(?:\r\n|\r|\n)[^\r\n]*){11}(?:\r\n|\r|\n)')
 # nothing, or what is left of an opening tag that has not been written completely
 _NO_DATA = re.compile(rb'[\s\0]*(?:-(?:1?\0+)?)?[\s\0]*')
 
 
+def _binary_data_end(data, ind):
+    """
+    Returns the offset of the end of the data of the binary data-set opened
+    at ind, as given by its header. If the header and the tags do not agree,
+    -1 is returned.
+    """
+    header = _BINARY_HEADER.match(data, ind)
+    if header is None:
+        return -1
+    end = header.end() + int(header.group(1))
+    tag = data.find(b'    -1', end, end + 8)
+    if tag == -1 or data[end:tag].strip(b'\r\n'):
+        return -1
+    # an unfinished data-set that is followed by another one
+    at = data.find(b'    -1', ind + 6, tag + 6)
+    while at != -1:
+        if data[at-1] in [10, 13] and _OPENING_TAG.match(data, at):
+            return -1
+        at = data.find(b'    -1', at + 1, tag + 6)
+    return end
+
+
 class UFF:
     """
     Manages data reading and writing from/to the UFF file.
@@ -217,17 +242,22 @@ class UFF:
                 # after other data in its line is a value of that data, unless
                 # nothing but the next data-set (possibly torn) or the end of
                 # the file follows; after binary data it is always the end.
+                # Within binary data there are no tags.
                 tags = block_ind
                 block_ind = []
                 si = None  # start offset of the open data-set
                 binary = False
+                binary_end = -1
                 for ii in range(0, len(tags)):
                     ind = tags[ii]
+                    if ind < binary_end:
+                        continue
                     in_line = ind > 0 and data[ind-1] not in [10, 13]
                     opening = None if in_line else _OPENING_TAG.match(data, ind)
                     if opening:
                         si = ind
                         binary = opening.group().lower().endswith(b'b')
+                        binary_end = _binary_data_end(data, ind) if binary else -1
                     elif in_line:
                         ei = tags[ii+1] if ii+1 < len(tags) else data_len
                         if si is not None and _NO_DATA.fullmatch(data, ind+6, ei) and \
-- 
2.43.0


From 467ccaef682d199819dcfee0bc6256f812f0742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 35/48] fix: read records that are padded with blanks in
 data-sets 18, 55 and 58

---
 pyuff/datasets/dataset_18.py | 4 ++--
 pyuff/datasets/dataset_55.py | 2 +-
 pyuff/datasets/dataset_58.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..8ec2aa1 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,7 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
+        line_data = ''.join([line[:78] for line in split_data[4::4]])
         rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
@@ -105,7 +105,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
+        line_data = ''.join([line[:39] for line in split_data[5::4]])
         rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 9309fd4..92f0b40 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -506,7 +506,7 @@ def _extract55(block_data):
             # Body
         split_data = ''.join(split_data[10:])
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 855f10e..33ec3dc 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1098,12 +1098,12 @@ def _extract58(block_data, header_only=False):
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line.rstrip()) // 20)])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line.rstrip()) // 33) for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From 35bb1fcc24e8c342c23b562d291908de529c6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 36/48] fix: more than 8 nodes of an element of data-set 2412
 go to further lines

---
 pyuff/datasets/dataset_2412.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index b1ae496..6016df2 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -67,7 +67,10 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
+                # (8I10): further nodes go to further lines
+                for n, ii in enumerate(elem['nodes_nums']):
+                    if n and n % 8 == 0:
+                        fh.write('\n')
                     fh.write('%10i' % ii)
                 fh.write('\n')
         fh.write('%6i\n' % -1)
@@ -110,6 +113,12 @@ def _extract2412(block_data):
                 # element is no rod and covers 2 lines
                 dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
                 i += 2
+            # (8I10): nodes which do not fit to the line are on further lines
+            n_line = len(dict_tmp['nodes_nums'])
+            while n_line == 8 and len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes']:
+                n_line = len(split_data[i])
+                dict_tmp['nodes_nums'].extend([int(e) for e in split_data[i]])
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From e7b8730037f552d32eb861f313d67affc1c4e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 37/48] fix: more than 6 values of data-set 2414 go to further
 lines

---
 pyuff/datasets/dataset_2414.py | 45 +++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 5e225f0..02a10cd 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -541,6 +541,35 @@ Dataset class: Data at points
     else:
         print(out)   
 
+def _write_values(fh, values):
+    """Write record 15 (6E13.5): the number of values is unknown, so loop."""
+    for n, value in enumerate(values):
+        if n and n % 6 == 0:
+            fh.write('\n')
+        fh.write('%13.5e' % (value))
+    fh.write('\n')
+
+
+def _extract_values(lines):
+    """Extract records 14 and 15. The values of record 15 which do not fit to
+    the line (6E13.5) are on further lines."""
+    record14, record15 = [], []
+    i = 0
+    while i < len(lines):
+        record14.append(lines[i].split())
+        n_line, values = 6, []
+        # a line of integers, only, is the next record 14
+        while n_line == 6 and i + 1 < len(lines) and \
+                (not values or not lines[i + 1].replace('-', '').replace(' ', '').isdigit()):
+            i += 1
+            line = [float(elem) for elem in _split_numbers(lines[i])]
+            n_line = len(line)
+            values.extend(line)
+        i += 1
+        record15.append(np.array(values, float))
+    return np.asarray(record14, 'U'), record15
+
+
 def _write2414(fh, dset):
     """
     DS2414_num is iterative number for each DS2414
@@ -670,20 +699,14 @@ def _write2414(fh, dset):
             if dset['dataset_location'] == 1:
                 for index in range(dset['node_nums'].shape[0]):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
-                    for field in dset['data_at_node'][index]:
-                        # number of values unknown, so loop
-                        fh.write('%13.5e' % (field))
-                    fh.write('\n')
+                    _write_values(fh, dset['data_at_node'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 2:
                 for index in range(dset['element_nums'].shape[0]):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
-                    for field in dset['data_at_element'][index]:
-                        # number of values in record15 unknown, so loop
-                        fh.write('%13.5e' % (field))
-                    fh.write('\n')
+                    _write_values(fh, dset['data_at_element'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 3:
@@ -789,17 +812,15 @@ def _extract2414(block_data):
             split_data = split_data.splitlines()
             if dset['dataset_location'] == 1:
                 # Data at nodes
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 # record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in _split_numbers(item)], float) for item in split_data[1::2]]
+                record14, record15 = _extract_values(split_data)
                 dset['node_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['data_at_node'] = record15
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 ## record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in _split_numbers(item)], float) for item in split_data[1::2]]
+                record14, record15 = _extract_values(split_data)
                 dset['element_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['NDVAL'] = np.array(record14[:,1].copy(), dtype=int)
                 dset['data_at_element'] = record15
-- 
2.43.0


From d8f7886d6f29c82dd1127274071badda04289a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 38/48] fix: convert several data-sets 2412 to 82

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index f0516ff..9335064 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -140,9 +140,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From 4677eb1f70cd8f6eecdbecf521762807fe3f9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 39/48] fix: a padded closing tag at the end of the file is
 found

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index ca76f8a..fbb33d5 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -232,7 +232,7 @@ class UFF:
                     elif ind+6 < data_len and data[ind+6] in [0, 10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
+                    elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
                     
-- 
2.43.0


From 0a2c48275f1f04de4f42b7444397de49d6d3e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 40/48] fix: the tag behind the data of a binary data-set
 closes it, whatever follows

---
 pyuff/pyuff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index fbb33d5..34895f0 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -260,9 +260,10 @@ class UFF:
                         binary_end = _binary_data_end(data, ind) if binary else -1
                     elif in_line:
                         ei = tags[ii+1] if ii+1 < len(tags) else data_len
-                        if si is not None and _NO_DATA.fullmatch(data, ind+6, ei) and \
+                        if si is not None and (ind == binary_end or \
+                            _NO_DATA.fullmatch(data, ind+6, ei) and \
                             (binary or ei == data_len or \
-                             data[ei-1] in [10, 13] and _OPENING_TAG.match(data, ei)):
+                             data[ei-1] in [10, 13] and _OPENING_TAG.match(data, ei))):
                             block_ind.extend([si, ind])
                             si = None
                     elif si is None:
-- 
2.43.0


From 2ea7e7a6bc85e81909285f2d2e24f18e85138653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 41/48] fix: 2412 given through prepare_2412 was written
 without its elements

---
 pyuff/datasets/dataset_2412.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 6016df2..30f2dda 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -44,9 +44,30 @@ Records 1 - 3 are repeated for each beam element in the model.
     else:
         print(out)   
 
+def _elements_by_type(dset):
+    """
+    Returns the elements of dset by their types, as they are written. Elements
+    given as arrays (see prepare_2412; directly, or as 'triangle' and 'quad'
+    of the legacy interface) are found there, too.
+    """
+    elements = {el_type: list(dset[el_type]) for el_type in dset if type(el_type) is int}
+    arrays = [dset] + [dset[name] for el_type, name in [(41, 'triangle'), (44, 'quad')]
+                       if name in dset and el_type not in dset]
+    for group in arrays:
+        group = check_dict_for_none(group)
+        for n in range(len(group.get('element_nums', []))):
+            elem = {'color': 0, 'num_nodes': len(group['nodes_nums'][n])}
+            for key in ['element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums',
+                        'beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross']:
+                if key in group:
+                    elem[key] = group[key][n]
+            elements.setdefault(int(elem['fe_descriptor']), []).append(elem)
+    return elements
+
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
+        dset = _elements_by_type(dset)
         for el_type in dset:
             if type(el_type) is not int:
                 # Skip 'type', 'triangle' and 'quad' indices
-- 
2.43.0


From 756d894aa5f9868937002700c735fd3eb3439297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:56 +0000
Subject: [PATCH 42/48] fix: 55 with other than 3 or 6 values per node was read
 as mixed values

The values of each node were taken apart as if there were 6 of them; as for
complex data, such data-sets can not be read.
---
 pyuff/datasets/dataset_55.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 92f0b40..b8a7b37 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -514,6 +514,8 @@ def _extract55(block_data):
                 dset['r1'] = node_vals[0::3].copy()
                 dset['r2'] = node_vals[1::3].copy()
                 dset['r3'] = node_vals[2::3].copy()
+            elif dset['n_data_per_node'] != 6:
+                raise Exception('Can handle 3 or 6 values per node, only, when reading data-set #55')
             else:
                 dset['node_nums'] = node_nums.copy()
                 dset['r1'] = node_vals[0::6].copy()
-- 
2.43.0


From 99b364e4715a85926990e87a205c4a09e604facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 43/48] fix: real data of 2414 frequency responses was written
 as complex and not read

Data of a real data type was written with imaginary parts, which the header
does not announce, and left out when reading; so was double precision complex
data when reading. A number of values per node that can not be written is
rejected, as the nodes were written without any values.
---
 pyuff/datasets/dataset_2414.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 02a10cd..b979dc7 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -637,9 +637,17 @@ def _write2414(fh, dset):
                                             dset['imaginary_part_of_modal_A_or_modal_mass'],
                                             dset['real_part_of_modal_B_or_modal_mass'], 
                                             dset['imaginary_part_of_modal_B_or_modal_mass']))                            
+            is_complex = dset['data_type'] in (5, 6)
+            names = ['x', 'y', 'z'][:dset['number_of_data_values_for_the_data_component']]
+            if dset['number_of_data_values_for_the_data_component'] not in (1, 2, 3):
+                raise ValueError('Unsupported number of data values')
+            if not is_complex and any([np.iscomplexobj(dset[name]) for name in names]):
+                raise ValueError('Complex data can not be written as real data')
             for index in range(dset['node_nums'].shape[0]):
                 fh.write('%10i\n' % (int(dset['node_nums'][index])))
-                if dset['number_of_data_values_for_the_data_component'] == 3 : 
+                if not is_complex:
+                    _write_values(fh, [dset[name][index] for name in names])
+                elif dset['number_of_data_values_for_the_data_component'] == 3 : 
                     fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                                 np.real(dset['x'][index]),
                                                 np.imag(dset['x'][index]),
@@ -775,7 +783,14 @@ def _extract2414(block_data):
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
-            if dset['data_type'] == 5 :
+            if dset['data_type'] not in (5, 6):
+                # real data
+                n_skip = dset['number_of_data_values_for_the_data_component'] + 1
+                values = np.asarray([float(str) for str in split_data], 'd')
+                dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
+                for ii, name in enumerate(['x', 'y', 'z'][:n_skip - 1]):
+                    dset[name] = values[ii + 1::n_skip].copy()
+            else:
                 values = np.asarray([float(str) for str in split_data], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
-- 
2.43.0


From 2d4b9727e27dad06abdd235d3183270e4badae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 44/48] fix: 58 with a single point could not be written

Such a data-set of another program was read, but could not be saved again.
---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 33ec3dc..0b54160 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -905,7 +905,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        dx = dset['x'][1] - dset['x'][0] if num_pts > 1 else dset.get('abscissa_inc', 0)
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From 99d5f4190756834cb8decc6097cde239aad4102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 45/48] fix: elements of 2412 whose type was given as a numpy
 integer were not written

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 30f2dda..657da4f 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -50,7 +50,7 @@ def _elements_by_type(dset):
     given as arrays (see prepare_2412; directly, or as 'triangle' and 'quad'
     of the legacy interface) are found there, too.
     """
-    elements = {el_type: list(dset[el_type]) for el_type in dset if type(el_type) is int}
+    elements = {int(el_type): list(dset[el_type]) for el_type in dset if isinstance(el_type, (int, np.integer))}
     arrays = [dset] + [dset[name] for el_type, name in [(41, 'triangle'), (44, 'quad')]
                        if name in dset and el_type not in dset]
     for group in arrays:
-- 
2.43.0


From 0c8ba924d6341a2a0f93da6582f4a6f317cf2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:36 +0000
Subject: [PATCH 46/48] fix: hand out copies of the lists of types and formats

The caller could change get_set_types(), get_set_formats() and
get_supported_sets() and with it the instance and the module.
---
 pyuff/pyuff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 34895f0..0b0e2b4 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -149,7 +149,7 @@ class UFF:
 
     def get_supported_sets(self):
         """Returns a list of data-sets supported for reading and writing."""
-        return _SUPPORTED_SETS
+        return list(_SUPPORTED_SETS)
 
     def get_n_sets(self):
         """
@@ -166,13 +166,13 @@ class UFF:
         """
         if not self._refreshed:
             self.refresh()
-        return self._set_types
+        return self._set_types.copy()
 
     def get_set_formats(self):
         """Returns an array of data-set formats: 0=ascii, 1=binary."""
         if not self._refreshed:
             self.refresh()
-        return self._set_formats
+        return self._set_formats.copy()
 
     def get_file_name(self):
         """Returns the file name (as a string) associated with the uff object."""
-- 
2.43.0


From f49b14b805bc80cef263188564094935751453a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:36 +0000
Subject: [PATCH 47/48] fix: write data-set 55 as complex if any of its arrays
 is complex

Only r1 was looked at; the imaginary parts of r2 and r3 got lost.
---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index b8a7b37..a434ac4 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -395,7 +395,7 @@ def _write55(fh, dset):
             n_data_per_node = 6
         else:
             n_data_per_node = 3
-        if np.iscomplexobj(dset['r1']):
+        if any([np.iscomplexobj(dset[r]) for r in ['r1', 'r2', 'r3', 'r4', 'r5', 'r6'][:n_data_per_node]]):
             data_type = 5
             if n_data_per_node == 6:
                 raise ValueError('Complex data with 6 values per node can not be written')
-- 
2.43.0


From 6bf1e7f2e7bef6fa203c2e2798824d7a4c8c39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:36 +0000
Subject: [PATCH 48/48] fix: data-set 2414 does not drop imaginary parts
 silently

Complex values of other analysis types than 5 are declined, as they are
for real data of analysis type 5.
---
 pyuff/datasets/dataset_2414.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index b979dc7..fd63e30 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -543,6 +543,8 @@ Dataset class: Data at points
 
 def _write_values(fh, values):
     """Write record 15 (6E13.5): the number of values is unknown, so loop."""
+    if np.iscomplexobj(values):
+        raise ValueError('Complex data can not be written as real data')
     for n, value in enumerate(values):
         if n and n % 6 == 0:
             fh.write('\n')
@@ -722,6 +724,8 @@ def _write2414(fh, dset):
                     fh.write('%10i%10i%10i%10i\n' % (dset['element_nums'][index], dset['IEXP'][index],
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
+                        if np.iscomplexobj(line):
+                            raise ValueError('Complex data can not be written as real data')
                         # each line is an np.ndarray with unknown number of elements, so loop
                         for item in line:
                             fh.write('%13.5e' % (item))
-- 
2.43.0

