From 92048d06d9d4aa1ef42b2a303c9572c463ea7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 01/64] fix: take_snapshot works on non-empty trajectory lists

np.int64_ does not exist in any numpy, and the live keys() view picked up the
trajid entry added after it, which is not a callable property.
---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..9747b1c 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -300,8 +300,8 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    copy_keys = list(kwds.keys())
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
-- 
2.43.0


From 2a2b3c022d7c009abdbe7ef4eb1cb0a05b47eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 02/64] fix: snapshots and pairs accept trajectories with float
 time

The ptv_is, xuap and acc readers produce float frame numbers, which numpy
no longer accepts as indices or subtracts in place from integers.
---
 flowtracks/pairs.py      | 2 +-
 flowtracks/trajectory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..17ced49 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -77,6 +77,6 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        pair_time[pair_trids == trid] -= int(traj.time(0))
         
     return pair_trids, pair_time
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9747b1c..3337509 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -264,7 +264,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(int)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -304,9 +304,9 @@ def take_snapshot(trajects, frame, schema):
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-        first_frame = traj.time()[0]
+        frm_ix = int(frame - traj.time()[0])
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](frm_ix)
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From 4af111317cfbda06ed8b6cd5b2d111033c258318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 03/64] fix: no trajectories are in frame when the trajectory
 list is empty

---
 flowtracks/trajectory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 3337509..9fd88c4 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -254,6 +254,9 @@ def trajectories_in_frame(trajects, frame_num,
     Returns:
     traj_nums = the indices of active trajectories in ``trajects``.
     """
+    if len(trajects) == 0:
+        return np.empty(0, dtype=int)
+    
     if start_times is None or end_times is None:
         start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
         start_times, end_times = map(np.array, zip(*start_end))
-- 
2.43.0


From 01f100d8e173ce940f217b345f175f7eaf1eb4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 04/64] fix: HDF tables are written with scalar columns again

Current numpy reads a (name, type, 1) field as a column of 1-element rows, so
no trajectories, frames or analyses could be saved.
---
 flowtracks/analysis.py |  6 ++++--
 flowtracks/io.py       | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..246a46f 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -14,6 +14,7 @@ fluid velocity around a particle from its surrounding tracers.
 """
 
 import numpy as np, tables
+from .io import table_dtype
 
 def companion_indices(trids, companions):
     """
@@ -117,7 +118,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     descr = [('trajid', int, 1), ('time', int, 1)]
     for analyser in analysers:
         descr.extend(analyser.descr())
-    descr = np.dtype(descr)
+    descr = table_dtype(descr)
     
     outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
     table = outfile.create_table('/', 'analysis', descr)
@@ -135,7 +136,8 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
             this_descr = analyser.descr()
             
             for res, desc in zip(analysis, this_descr):
-                arr[desc[0]] = res
+                # Scalar columns are given by analysers as (f,1) arrays.
+                arr[desc[0]] = np.ravel(res) if desc[2] == 1 else res
         
         table.append(arr)
     
diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..523483e 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -679,6 +679,20 @@ def save_trajectories(output_dir, trajects, per_traject_adds, **kwds):
     for k, v in kwds.items():
         np.save(os.path.join(output_dir, k), v)
     
+def table_dtype(fields):
+    """
+    Make a record dtype out of field descriptions, where a row length of 1 
+    describes a scalar column rather than a column of 1-element rows.
+    
+    Arguments:
+    fields - a list of tuples (name, data type, row length).
+    
+    Returns:
+    the corresponding numpy dtype.
+    """
+    return np.dtype([(name, typ) if length == 1 else (name, typ, length) \
+        for name, typ, length in fields])
+
 def save_particles_table(filename, trajects, trim=None):
     """
     Save trajectory data as a table of particles, with added columns for time
@@ -708,7 +722,7 @@ def save_particles_table(filename, trajects, trim=None):
             # Format of records in a trajectory array :
             fields = [('trajid', int, 1)] + [(field,) + desc \
                 for field, desc in traj.ext_schema().items()]
-            dtype = np.dtype(fields)
+            dtype = table_dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
@@ -757,7 +771,7 @@ def save_frames_hdf(filename, frames):
             # Format of records in a frame array:
             fields = [('time', int, 1)] + [(field,) + desc \
                 for field, desc in frame.ext_schema().items()]
-            dtype = np.dtype(fields)
+            dtype = table_dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
         
         min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)
@@ -788,7 +802,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        table_dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
-- 
2.43.0


From 8657d7d589f2345b9544edb0d2882b20fa944fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 05/64] fix: save_particles_table accepts a trim of zero points

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 523483e..64c36ec 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -729,7 +729,7 @@ def save_particles_table(filename, trajects, trim=None):
         arr['trajid'] = traj.trajid()
         
         for k, v in traj.as_dict().items():
-            if trim is None:
+            if trim is None or trim == 0:
                 arr[k] = v
             else:
                 arr[k] = v[trim:-trim]
-- 
2.43.0


From 5465585a52a2b570f9c041817d2ae2a4080921ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 06/64] fix: AnalysedScene.collect works under Python 3 and
 with conditions on particle data

---
 flowtracks/an_scene.py | 4 ++--
 flowtracks/scene.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..8f288fa 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import tables, itertools as it, numpy as np
+import tables, numpy as np
 from .scene import read_dual_scene, gen_query_string
 from .trajectory import Trajectory
 
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..ad35422 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 4076db70e1ed9e536f95f20c2a0ad866ceeb7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 07/64] fix: Scene.collect accepts conditions when no frame
 range is set

---
 flowtracks/scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index ad35422..6665131 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,9 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = []
+        if self._frame_limit != '':
+            conds.append(self._frame_limit)
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From 8a327a710bc399af94630f44a7c071d32272c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 08/64] fix: condition limits keep their full precision in
 query strings

%g rounded them to 6 significant digits, selecting other particles than asked
for.
---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 6665131..8a83dbe 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From 70d4b840b72de301fcc8c7c343b5a5c9c212720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:11 +0000
Subject: [PATCH 09/64] fix: DualScene restores its frame range when an
 iteration is abandoned

---
 flowtracks/scene.py | 56 +++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 8a83dbe..5bb46f4 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -425,17 +425,18 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for particles, tracers in zip(
-            self._particles.iter_frames(), self._tracers.iter_frames()):
-            frame = Frame()
-            frame.tracers = tracers
-            frame.particles = particles
-            yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for particles, tracers in zip(
+                self._particles.iter_frames(), self._tracers.iter_frames()):
+                frame = Frame()
+                frame.tracers = tracers
+                frame.particles = particles
+                yield frame
+        finally:
+            # restore original frame range, even if iteration stopped early.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -457,22 +458,23 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for part_frames, tracer_frames in zip(
-            self._particles.iter_segments(), self._tracers.iter_segments()):
-            frame = Frame()
-            frame.tracers = tracer_frames[0]
-            frame.particles = part_frames[0]
-            
-            next_frame = Frame()
-            next_frame.tracers = tracer_frames[1]
-            next_frame.particles = part_frames[1]
-            
-            yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for part_frames, tracer_frames in zip(
+                self._particles.iter_segments(), self._tracers.iter_segments()):
+                frame = Frame()
+                frame.tracers = tracer_frames[0]
+                frame.particles = part_frames[0]
+                
+                next_frame = Frame()
+                next_frame.tracers = tracer_frames[1]
+                next_frame.particles = part_frames[1]
+                
+                yield frame, next_frame
+        finally:
+            # restore original frame range, even if iteration stopped early.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From a4663201567fabf1cb3ccbc26eab60fd7c0219ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 10/64] fix: trajectories() can return an iterator under Python
 3

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 64c36ec..9faeb45 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -15,7 +15,7 @@ The rest of the content of this module is composed of readers and writers for
 the various formats. They are documented here alongside the main entry points,
 so that users may access them directly if needed.
 """
-import os, os.path, re, itertools as itr
+import os, os.path, re
 from configparser import ConfigParser
 from io import StringIO
 
@@ -514,7 +514,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From b888e89ab15aec5abf61f06f2bf96bc3e8c6fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 11/64] fix: trajectories() reads the documented inclusive
 range from HDF files

The last frame was left out, and trajectories entirely out of the range were
returned empty, on which Sequence objects fail.
---
 flowtracks/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 9faeb45..b66504c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -502,8 +502,10 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
-        it = scene.iter_trajectories()
+        # Scene ranges do not include the last frame, ours do.
+        scene = Scene(fname, (first, None if last is None else last + 1))
+        # Trajectories out of the range are empty.
+        it = (t for t in scene.iter_trajectories() if len(t) > 0)
         if iter_allowed:
             traj = it
         else:
-- 
2.43.0


From d3a1fafc1b53ab2e171282f98c0f63699103faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 12/64] fix: trajectories_acc reads all frames of the inclusive
 range in order

Reading stopped at the first listed file past the range, although files are
listed in arbitrary order, and the last frame was left out. Frames with one
row were not readable.
---
 flowtracks/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index b66504c..d1e679f 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -225,16 +225,17 @@ def trajectories_acc(fname, first=None, last=None):
     dirname, basename = os.path.split(os.path.expanduser(fname))
     is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
     
-    for fname in os.listdir(dirname):
-        match = is_data_file.match(fname)
-        if match is None: continue
+    # File names are not listed in any particular order.
+    matches = filter(None, map(is_data_file.match, os.listdir(dirname or '.')))
+    for match in sorted(matches, key=lambda match: int(match.group(1))):
+        fname = match.string
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
+        if last is not None and frame > last: break
         
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From b9bc312c67d5238db016742aaca5a874e4518524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 13/64] fix: frame file templates match only whole file names,
 in any directory

Any file whose name starts like a frame file (e.g. a backup copy) made the
reader process that frame again, and templates relative to the current
directory did not work.
---
 flowtracks/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index d1e679f..246bf6e 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -45,12 +45,13 @@ class FramesIterator(object):
             np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = re.compile(
+            re.escape(basename).replace('%d', r'(\d+)', 1) + '$')
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or '.'):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
@@ -223,7 +224,8 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = re.compile(
+        re.escape(basename).replace('%d', r'(\d+)', 1) + '$')
     
     # File names are not listed in any particular order.
     matches = filter(None, map(is_data_file.match, os.listdir(dirname or '.')))
-- 
2.43.0


From bf20d59ec738b653e0d7cf8800d1fb498c0919df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:44 +0000
Subject: [PATCH 14/64] fix: xuap files are readable with current numpy

---
 flowtracks/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 246bf6e..94288a9 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -41,8 +41,13 @@ class FramesIterator(object):
             numbering.
         """
         self._frmix = 0
+        # In xuap files, link indices are written as floats, and there may be
+        # more columns than needed.
+        file_fmt = np.dtype([(name, 'f8', fmt[name].shape) \
+            for name in fmt.names])
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=file_fmt, skiprows=skip, 
+                usecols=range(file_fmt.itemsize // 8))).astype(fmt)
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(
-- 
2.43.0


From f8e9ea6d2c758fd75658b18404223eac51aa40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:44 +0000
Subject: [PATCH 15/64] fix: single-particle frames in concatenated ptv_is
 files are not dropped

---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 94288a9..7d9706a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -100,7 +100,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
-- 
2.43.0


From cd184d9cf9c2d4a4219ecb3d92c235e8f1f701ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:00 +0000
Subject: [PATCH 16/64] fix: single-frame trajectories in the first ptv_is
 frame are returned

They were kept when asked for by traj_min_len, but never given back.
---
 flowtracks/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 7d9706a..7efc116 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -326,10 +326,12 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     
     # Single-frame trajectories in first frame:
     ending = table['next'] - count_base == -2
-    if ending.any():
+    if ending.any() and traj_min_len <= 1:
         ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
         for trid in ending_trids:
-            trajects[trid] = frame[frame[:,-1] == trid]
+            traj = frame[frame[:,-1] == trid]
+            yield Trajectory(traj[:,:3], traj[:,3:6], traj[:,6], int(trid),
+                accel=np.zeros_like(traj[:,3:6]))
     
     frame_buffer_start = 0
     
-- 
2.43.0


From b8e297adeb372a34eb368170d492ef6cd0c0a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:16 +0000
Subject: [PATCH 17/64] fix: collecting a frame's particles finds all of them,
 or none

A frame file with no path reaching the requested frame hid paths starting in
earlier frames; frames without particles, and files of one row, failed or gave
a result of a different shape.
---
 flowtracks/io.py         | 9 +++------
 flowtracks/trajectory.py | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 7efc116..39a0901 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -158,7 +158,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -169,10 +170,6 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
         selected.append(in_frame)
         cur_frame -= 1
     
@@ -601,7 +598,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9fd88c4..a3ec844 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -232,7 +232,7 @@ def mark_unique_rows(all_rows):
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-    uniq = np.r_[srt[0], srt[1:][diff]]
+    uniq = np.r_[srt[:1], srt[1:][diff]]
     uniq.sort()
         
     return uniq
-- 
2.43.0


From b9f18d145659d6fdd0817e16d3e0ba1273163586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:16 +0000
Subject: [PATCH 18/64] fix: single-point trajectories in mat files have a time
 array, not a scalar

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 39a0901..78e896e 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -206,7 +206,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = traj['t'].ravel()
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0


From e47ef52e1745fae239ae2047a5e8a6e9ae19889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:47 +0000
Subject: [PATCH 19/64] fix: Sequence is iterable under Python 3, and over the
 range asked for

Sequence had no __next__(). Also, an abandoned iteration left its subrange in
force for the next one, and getting the tracer trajectories before iterating
left the iteration without their schema.
---
 flowtracks/sequence.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..6ff63d5 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -160,23 +160,7 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
-        
-        self._frame = self._act_rng[0]
-        
-        # Make sure the particle trajectory cache is populated.
-        self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
-        
-        # Make sure the tracers cache is populated:
-        self.tracer_trajectories()
-        
-        self.__tschem = self.__ttraj[0].schema()
-        
-        return self
+        return self.iter_subrange(*self._rng)
     
     def iter_subrange(self, first, last):
         """
@@ -190,14 +174,19 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
-    
-    def next(self):
-        if self._frame == self._act_rng[1]:
-            del self._act_rng
-            raise StopIteration
+        # Make sure the particle trajectory cache is populated.
+        self.particle_trajectories()
+        self.__schema = self.__ptraj[0].schema()
         
+        # Make sure the tracers cache is populated:
+        self.tracer_trajectories()
+        self.__tschem = self.__ttraj[0].schema()
+        
+        for frame_num in range(first, last):
+            self._frame = frame_num
+            yield self._read_segment()
+    
+    def _read_segment(self):
         frame = Frame()
         tracer_ixs = trajectories_in_frame(self.__ttraj, self._frame, 
             self.__tstarts, self.__tends, segs=True)
-- 
2.43.0


From a06dd7f3798ebe2c34cd1cd65c3eca0b8bddcefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:47 +0000
Subject: [PATCH 20/64] fix: read_sequence accepts the default minimal length
 from save_config

---
 flowtracks/sequence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 6ff63d5..69c5ec3 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -336,7 +336,9 @@ def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     # Same goes for traj_min_len
     if parser.has_option("Scene", "trajectory minimal length"):
         if traj_min_len is None:
-            traj_min_len = parser.getint("Scene", "trajectory minimal length")
+            # Note the default length is written as a float by save_config().
+            traj_min_len = parser.getfloat("Scene", 
+                "trajectory minimal length")
     else:
         if traj_min_len is None:
             traj_min_len = 0
-- 
2.43.0


From 374461d4d62d7f7df455294b1a119704bfeb38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:05 +0000
Subject: [PATCH 21/64] fix: Sequence.save_config escapes every percent sign in
 file names

---
 flowtracks/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 69c5ec3..68e3a29 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -292,8 +292,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(self._minlen))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
-- 
2.43.0


From 247a396493f0f23f4ea812a8c3a3bafdf7cdf907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:05 +0000
Subject: [PATCH 22/64] fix: select_neighbs never selects an excluded tracer

With less than num_neighbs tracers remaining, the companion or coinciding
tracer was used as well, as a neighbour of zero distance.
---
 flowtracks/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..9048040 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -69,6 +69,7 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        use_parts &= np.isfinite(dists)  # excluded tracers are sorted last.
 
     else:
         use_parts = dists < radius
@@ -580,7 +581,8 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            pt_dists = dists[pt, use_parts[pt]]
+            ndists[pt, :len(pt_dists)] = pt_dists
         
         return ndists
     
-- 
2.43.0


From 5e586835882f7c1f02423730a5daf0154699ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:05 +0000
Subject: [PATCH 23/64] fix: interpolation points may have several excluded
 neighbours

A point in the position of one tracer and having another one as its companion,
or in the position of several tracers, raised an error, or shifted the
neighbours of other points.
---
 flowtracks/interpolation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 9048040..70558ff 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -352,14 +352,23 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
+        # A point may be in the position of several data points, and have a
+        # companion too. All are found as neighbours, then excluded. 
+        num_excl = max(self.__field_tree.query_ball_point(
+            interp_pts, 0., return_length=True), default=0)
+        if comp is not None:
+            num_excl += 1
+        
         dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+            interp_pts, self._neighbs + max(num_excl, 1), 
+            distance_upper_bound=self._upb)
         keep = dists > 0.
         
         if comp is not None:
             keep &= active_neighbs != comp[:, None]
         
-        keep[np.all(keep, axis=1), -1] = False
+        # Keep the first of those that are not excluded, in each row.
+        keep &= np.cumsum(keep, axis=1) <= self._neighbs
         dists = dists[keep].reshape(-1, self._neighbs)
         active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
         
-- 
2.43.0


From 8d5a3280fcd710b9318199e8daab92437e4c929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 24/64] fix: inverse-distance weights follow a change of field
 positions

Setting field positions for the recorded interpolation points found the new
neighbours but kept using the weights calculated for the previous ones.
---
 flowtracks/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 70558ff..65f34e6 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -674,6 +674,12 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _forego_laziness(self):
+        """
+        The weights depend on the neighbours, and change together with them.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
-- 
2.43.0


From f29d53e4dd928f38fc753dbcb63653a0c89f254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 25/64] fix: Jacobian uses the current data after data is
 replaced

---
 flowtracks/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 65f34e6..2f83a43 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -321,6 +321,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
-- 
2.43.0


From 0281e7d998c36aedba26151c3310d7327235ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 26/64] fix: trimming interpolation points trims all that is
 recorded for them

Relative positions, companions and matched data still described the points
before trimming, and were used by later calculations.
---
 flowtracks/interpolation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f83a43..f56a2be 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -333,9 +333,14 @@ class GeneralInterpolant(object):
         """
         keep = ~which
         self.__interp_pts = self.__interp_pts[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__matched_data = None
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
-- 
2.43.0


From 217c4f8e441b9b807acfdeb1b4ec99b2f00e5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 27/64] fix: missing neighbours have no effect on interpolation
 and Jacobian

Uninitialized memory stood for their data, and when it happened to hold NaN or
infinity so did the result. Also, the Jacobian assumed 3-component data.
---
 flowtracks/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index f56a2be..0defc9a 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -391,7 +391,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -429,8 +429,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -753,7 +753,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From fb7e2ff76722a4b94a153ebfbc1baa30b929a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 28/64] fix: interpolating a recorded scene works for the rbf
 and corrfun methods

---
 flowtracks/interpolation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 0defc9a..87852df 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -479,12 +479,19 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # These methods work with all tracers and a boolean selection of them.
+        dists = np.linalg.norm(
+            self.__tracers[None, :, :] - self.__interp_pts[:, None, :], axis=2)
+        use_parts = np.zeros(dists.shape, dtype=np.bool_)
+        has_data = act_neighbs < self.__tracers.shape[0]
+        use_parts[np.nonzero(has_data)[0], act_neighbs[has_data]] = True
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
-- 
2.43.0


From 6e6ca6f8d5a5c57225393aee812a9f9b3d584259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 29/64] fix: companions of interpolation points do not change
 distances between tracers

---
 flowtracks/interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 87852df..d11079d 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -399,8 +399,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -535,7 +534,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From c46f600a52dfc3e531803df50b99d525bcbd5fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 30/64] fix: corrfun interpolation accepts the documented 1D
 correlation histogram

---
 flowtracks/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index d11079d..02ecb4c 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -100,6 +100,9 @@ def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
     vel_avg - an (m,3) array with the interpolated velocity at each 
         interpolation point, [units of ``data``].
     """
+    if corrs_hist.ndim == 1: # same correlation for all components.
+        corrs_hist = corrs_hist[:, None]
+    
     weights = np.zeros(dists.shape + (data.shape[-1],))
     weights[use_parts] = corrs_hist[
         np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
-- 
2.43.0


From 492f908da9ce5021b0c436880f07fd9f9b997a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 31/64] fix: numerical Jacobian excludes companions like the
 interpolation it differs from

---
 flowtracks/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 02ecb4c..07aed30 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -569,11 +569,11 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp) 
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From c5d7fd49dffd1675c0ad07c0e166c3c1f245db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 32/64] fix: a saved interpolant configuration can be read back

---
 flowtracks/interpolation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 07aed30..01151a4 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -621,9 +621,13 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        # Unset values are left out, so that reading back leaves them unset.
+        if self.radius() is None:
+            cfg.remove_option('Interpolant', 'radius')
+        else:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -826,6 +830,9 @@ def read_interpolant(conf_fname):
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        if parser.get('Interpolant', 'method') == 'corrfun': # file name.
+            kwds['param'] = parser.get('Interpolant', 'param')
+        else:
+            kwds['param'] = parser.getfloat('Interpolant', 'param')
     
     return interpolant(parser.get('Interpolant', 'method'), **kwds)
-- 
2.43.0


From 935d53862f7b373c2c49e09ba7dbb20016a674c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 33/64] fix: inverse-distance interpolants can be called
 off-scene as documented

---
 flowtracks/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 01151a4..fd40f21 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -748,7 +748,9 @@ class InverseDistanceWeighter(GeneralInterpolant):
         vel_interp - an (m,3) array with the interpolated value at the position
             of each particle, [m/s].
         """
-        raise NotImplementedError()
+        scene = InverseDistanceWeighter(self._neighbs, self._radius, self._par)
+        scene.set_scene(tracer_pos, interp_points, data, companionship)
+        return scene.interpolate()
         
     def _meth_interp(self, act_neighbs=None):
         """
-- 
2.43.0


From 0e6e326c8c349e9965a4fcf094c049f687f726fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 34/64] fix: points can be trimmed from an inverse-distance
 scene with no tracers

---
 flowtracks/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index fd40f21..e3379c6 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -711,7 +711,8 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        self.__weights = self.__weights[~which]
+        if len(self.field_positions()) > 0: # otherwise there are no weights.
+            self.__weights = self.__weights[~which]
         
     def _apply_weights(self, weights, data):
         """
-- 
2.43.0


From 5b50f2e3e13c69574f49906f4cd8139e721c32e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 35/64] fix: paired sets of trajectories may have different
 properties

---
 flowtracks/pairs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 17ced49..f8fba5f 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -62,7 +62,8 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             pair_time[coord_locator] = -1
             continue
             
-        sec_parts = take_snapshot(sec_in_frame, frame_num, schema)
+        sec_parts = take_snapshot(sec_in_frame, frame_num, 
+            sec_in_frame[0].schema())
         
         dists_sq = np.sum(
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
-- 
2.43.0


From eaa8056308c629736e436e55159cb1efecdc11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 36/64] fix: particle_pairs returns pairs in the order they
 were requested

---
 flowtracks/pairs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index f8fba5f..28a49d0 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -69,6 +69,10 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
         pair_ixs = np.argmin(dists_sq, axis=1)
+        
+        # The request may be in any order, and repeat particles.
+        prim_row = dict((t, r) for r, t in enumerate(prim_parts.trajid()))
+        pair_ixs = pair_ixs[[prim_row[t] for t in trajids[coord_locator]]]
         pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
         pair_time[coord_locator] = frame_num # later transformed.
     
-- 
2.43.0


From 0d68dd8acd389b1c59825e155c9d3cc19ff9b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 37/64] fix: savitzky_golay works with numpy versions without
 np.mat

---
 flowtracks/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..00a74cf 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,8 +64,8 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A
+    b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b)
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From da27cc9303d31b8fc622b23611a30a02a8205d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 38/64] fix: savitzky_golay accepts polynomials of order less
 than 3

---
 flowtracks/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 00a74cf..e030087 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -66,6 +66,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     # precompute coefficients
     b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b)
+    if order < 3: # The derivatives of higher degree are zero.
+        m = np.vstack((m, np.zeros((3 - order, window_size))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From fbbd849588cbb10fc8a28ff2cd513b600c23f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 39/64] fix: smoothing a smoothed trajectory recalculates
 vel_pp

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index e030087..28f5ac9 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,7 +60,7 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-- 
2.43.0


From cfa020aa0a16071d3e3004c077285d74b4f45b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 40/64] fix: logarithmic bins contain the extreme samples

---
 flowtracks/graphics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..67ea469 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -36,6 +36,7 @@ def pdf_bins(data, num_bins, log_bins=False):
         data = data[data > 0] 
         minv = np.min(data)
         bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        bins[0], bins[-1] = minv, data.max() # not rounded inwards.
     else:
         bins = num_bins
     
-- 
2.43.0


From d0b1ed5d0e12380dfead3f1a6c72bf3ad0830759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 41/64] fix: analyse_fhdf passes the method parameter as such
 rather than as radius

---
 scripts/analyse_fhdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..5f2df67 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,10 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    param = args.param
+    if param is not None and args.method != 'corrfun': # not a file name.
+        param = float(param)
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 19ee0256b4bd04f1969e075b5108fca1a5a54b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 42/64] fix: docstring formatting keeps the text on a section
 title's line

---
 flowtracks/format_docstrings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/format_docstrings.py b/flowtracks/format_docstrings.py
index e0fa83d..e1f8269 100644
--- a/flowtracks/format_docstrings.py
+++ b/flowtracks/format_docstrings.py
@@ -40,7 +40,9 @@ def parse_docstring(app, what, name, obj, options, lines):
             m = section_title.match(line)
             if m is not None:
                 section.extend(['*' + m.group(1) + '*', ''])
-                continue
+                line = line[m.end():]
+                if end_section.match(line) is not None:
+                    continue
         
         m = def_line.match(line)
         if m is not None:
-- 
2.43.0


From 8f9100d25d50c55bbb992286044db8484d938a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 43/64] fix: empty frames in concatenated ptv_is files do not
 end the reading

---
 flowtracks/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 78e896e..3502698 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -117,12 +117,14 @@ class SingleFileIterator(object):
         
         # Make the stringio object to be used by read_frame
         lines = []
+        ended = True
         for line in self._f:
             if re.match(r'^\s*$', line):
+                ended = False # an empty line also follows an empty frame.
                 break
             lines.append(line)
         
-        if len(lines) == 0:
+        if len(lines) == 0 and ended:
             raise StopIteration # EOF
         
         str_tbl = StringIO("".join(lines))
-- 
2.43.0


From cd9e5afc3d67c590c1f73c46c9803bae1190baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 44/64] fix: trajectories() reads only the documented range
 from mat files

---
 flowtracks/io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3502698..19d18d7 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -490,7 +490,15 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     filter_needed = True
     
     if fmt == 'mat':
-        traj = trajectories_mat(fname)
+        # mat files hold all frames, take only those in range.
+        traj = []
+        for tr in trajectories_mat(fname):
+            t = tr.time()
+            in_range = (t >= (-np.inf if first is None else first)) \
+                & (t <= (np.inf if last is None else last))
+            if in_range.any():
+                traj.append(Trajectory(trajid=tr.trajid(), **dict(
+                    (k, v[in_range]) for k, v in tr.as_dict().items())))
     
     elif fmt == 'npz':
         traj, _ = load_trajectories(fname, first, last)
-- 
2.43.0


From 787c2cb60db51e6c889959ba61ec81f829f83b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 45/64] fix: a range without ptv_is frames has no trajectories,
 instead of an error

---
 flowtracks/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 19d18d7..4b11df4 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -301,7 +301,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         frm_iter = SingleFileIterator(fname, fmt)
     
     # In the first frame, every particle starts a trajectory.
-    frame_num, table = next(frm_iter)    
+    try:
+        frame_num, table = next(frm_iter)
+    except StopIteration:
+        return # no frames, no trajectories.
     
     pos = table['pos']
     if not xuap: pos /=1000.
-- 
2.43.0


From 063f33cb313c0c4cd4cf2286612117bb3e2411ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 46/64] fix: relative positions of neighbours are available
 before interpolating

---
 flowtracks/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index e3379c6..720d2f4 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -409,6 +409,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+                
         return self.__rel_pos
     
     def current_dists(self):
-- 
2.43.0


From aefe4815587313618098b239bb41746145cb055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 47/64] fix: analysed trajectories match their analysis also
 around gaps and range ends

---
 flowtracks/an_scene.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 8f288fa..351512c 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -156,14 +156,17 @@ class AnalysedScene(object):
         """
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
-        # Trim last point of trajectory to match analysis:
-        kwds = dict((k, v[:-1]) for k, v in traj.as_dict().items())
-        kwds['trajid'] = trid
-        
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
         arr = self._table.read_where(query_string)
         
+        # Trim the trajectory to match analysis. This normally leaves out the
+        # last point, but also those before a gap or out of analysed range.
+        analysed = np.isin(traj.time(), arr['time'])
+        arr = arr[np.isin(arr['time'], traj.time())]
+        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
+        kwds['trajid'] = trid
+        
         # Update into the Trajectory object:
         for field in arr.dtype.fields:
             if field not in ['trajid', 'time']:
-- 
2.43.0


From ce7ddc480fbcf503eb25f2ce1a3ea6b1665c0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 48/64] fix: smoothing a trajectory with a linear spline does
 not fail

---
 flowtracks/trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index a3ec844..e6f6f32 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -184,7 +184,10 @@ class Trajectory(ParticleSet):
         
         new_pos = np.array(interp.splev(eval_prms, spline)).T
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
-        new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
+        if order < 2:
+            new_accel = np.zeros_like(new_vel)
+        else:
+            new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
         
         return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
             accel=new_accel)
-- 
2.43.0


From 0052d9bb5804510c87254c90fff5cd942f69ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:39 +0000
Subject: [PATCH 49/64] fix: iterations over a dual scene do not disturb one
 another's frame range

---
 flowtracks/scene.py | 49 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 5bb46f4..b72cca9 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -34,6 +34,13 @@ def pairwise(iterable):
     next(b, None)
     return zip(a, b)
 
+def started(iterator):
+    """
+    Gets an iterator past its preparations (e.g. looking up the current frame 
+    range) but still before the first item.
+    """
+    return it.chain(list(it.islice(iterator, 1)), iterator)
+
 def gen_query_string(key, range_spec):
     """
     A small utility to create query string suitable for PyTables' 
@@ -426,17 +433,19 @@ class DualScene(object):
             self._tracers.set_frame_range(frame_range)
     
         try:
-            for particles, tracers in zip(
-                self._particles.iter_frames(), self._tracers.iter_frames()):
-                frame = Frame()
-                frame.tracers = tracers
-                frame.particles = particles
-                yield frame
+            part_iter = started(self._particles.iter_frames())
+            tracer_iter = started(self._tracers.iter_frames())
         finally:
-            # restore original frame range, even if iteration stopped early.
+            # restore original frame range, iteration already has its own.
             if frame_range != -1:
                 self._particles.set_frame_range(self._rng)
                 self._tracers.set_frame_range(self._rng)
+        
+        for particles, tracers in zip(part_iter, tracer_iter):
+            frame = Frame()
+            frame.tracers = tracers
+            frame.particles = particles
+            yield frame
     
     def iter_segments(self, frame_range=-1):
         """
@@ -459,22 +468,24 @@ class DualScene(object):
             self._tracers.set_frame_range(frame_range)
     
         try:
-            for part_frames, tracer_frames in zip(
-                self._particles.iter_segments(), self._tracers.iter_segments()):
-                frame = Frame()
-                frame.tracers = tracer_frames[0]
-                frame.particles = part_frames[0]
-                
-                next_frame = Frame()
-                next_frame.tracers = tracer_frames[1]
-                next_frame.particles = part_frames[1]
-                
-                yield frame, next_frame
+            part_iter = started(self._particles.iter_segments())
+            tracer_iter = started(self._tracers.iter_segments())
         finally:
-            # restore original frame range, even if iteration stopped early.
+            # restore original frame range, iteration already has its own.
             if frame_range != -1:
                 self._particles.set_frame_range(self._rng)
                 self._tracers.set_frame_range(self._rng)
+        
+        for part_frames, tracer_frames in zip(part_iter, tracer_iter):
+            frame = Frame()
+            frame.tracers = tracer_frames[0]
+            frame.particles = part_frames[0]
+            
+            next_frame = Frame()
+            next_frame.tracers = tracer_frames[1]
+            next_frame.particles = part_frames[1]
+            
+            yield frame, next_frame
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From ee37b250ee383469b18bcbd2de5c6e6fe5d4f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:51 +0000
Subject: [PATCH 50/64] fix: a failure while writing or reading an HDF file
 does not leave it open

---
 flowtracks/analysis.py | 16 +++++++++++++---
 flowtracks/io.py       | 42 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 246a46f..39e87f7 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -120,7 +120,18 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         descr.extend(analyser.descr())
     descr = table_dtype(descr)
     
-    outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
+    with tables.open_file(analysis_file, "w", title="Analysis results.") as out:
+        fill_analysis(out, descr, scene, conf_file, analysers, frame_range)
+
+def fill_analysis(outfile, descr, scene, conf_file, analysers, frame_range):
+    """
+    Does the work of :func:`analysis` on a file that is open for writing.
+    
+    Arguments:
+    outfile - the open PyTables file.
+    descr - numpy dtype of a row in the analysis table.
+    scene, conf_file, analysers, frame_range - see :func:`analysis`.
+    """
     table = outfile.create_table('/', 'analysis', descr)
     table.attrs['config'] = conf_file
     table.attrs['trajects'] = scene.get_particles_path()
@@ -141,8 +152,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         
         table.append(arr)
     
-    # Wrap up and close.
+    # Wrap up.
     table.cols.trajid.create_index()
     table.cols.time.create_index()
     outfile.flush()
-    outfile.close()
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 4b11df4..d648b01 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -729,10 +729,20 @@ def save_particles_table(filename, trajects, trim=None):
     trim - if None, remove this many time points from each end of each 
         trajectory before saving.
     """
+    with tables.open_file(filename, mode='w') as outfile:
+        fill_particles_file(outfile, trajects, trim)
+
+def fill_particles_file(outfile, trajects, trim):
+    """
+    Does the work of :func:`save_particles_table` on an open file.
+    
+    Arguments:
+    outfile - the PyTables file, open for writing.
+    trajects, trim - see :func:`save_particles_table`.
+    """
     table = None
     trim_len = 0 if trim is None else trim * 2
     
-    outfile = tables.open_file(filename, mode='w')
     bounds_tab = outfile.create_table('/', 'bounds', 
         np.dtype([('trajid', int), ('first', int), ('last', int)]))
     
@@ -766,7 +776,6 @@ def save_particles_table(filename, trajects, trim=None):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def save_frames_hdf(filename, frames):
     """
@@ -779,8 +788,18 @@ def save_frames_hdf(filename, frames):
         is recommended so that ``infer_format()`` knows what to do with it.
     frames - an iterable sequence of ParticleSnapshot objects to save.
     """
+    with tables.open_file(filename, mode='w') as outfile:
+        fill_frames_file(outfile, frames)
+
+def fill_frames_file(outfile, frames):
+    """
+    Does the work of :func:`save_frames_hdf` on an open file.
+    
+    Arguments:
+    outfile - the PyTables file, open for writing.
+    frames - see :func:`save_frames_hdf`.
+    """
     table = None
-    outfile = tables.open_file(filename, mode='w')
     min_pos = np.full(3, np.inf)
     max_pos = np.full(3, -np.inf)
     
@@ -831,7 +850,6 @@ def save_frames_hdf(filename, frames):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def trajectories_table(fname, first=None, last=None):
     """
@@ -845,7 +863,20 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    outfile = tables.open_file(fname, mode='r')
+    with tables.open_file(fname, mode='r') as outfile:
+        return table_trajectories(outfile, first, last)
+
+def table_trajectories(outfile, first, last):
+    """
+    Does the work of :func:`trajectories_table` on an open file.
+    
+    Arguments:
+    outfile - the PyTables file.
+    first, last - inclusive range of frames to read.
+    
+    Returns:
+    trajects - a list of Trajectory objects, each trimmed to the frame range.
+    """
     table = outfile.get_node('/particles')
     
     query_string = ('(trajid == trid)')
@@ -862,7 +893,6 @@ def trajectories_table(fname, first=None, last=None):
         kwds['trajid'] = trid
         trajects.append(Trajectory(**kwds))
     
-    outfile.close()
     return trajects
 
 def load_trajectories(res_dir, first=None, last=None):
-- 
2.43.0


From b0c458253ee9cd0bbd032dcb40f5b565f416f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 51/64] fix: read frame files also when their path has other
 percent signs

The frame number was put into the path by string formatting, so that any
percent sign in the name of a directory, other than the one of %d, made
reading ptv_is and xuap files fail.
---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index d648b01..a4df49d 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -45,11 +45,12 @@ class FramesIterator(object):
         # more columns than needed.
         file_fmt = np.dtype([(name, 'f8', fmt[name].shape) \
             for name in fmt.names])
+        dirname, basename = os.path.split(fname_tmpl)
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=file_fmt, skiprows=skip, 
+            np.loadtxt(os.path.join(dirname, basename.replace('%d', str(fix))),
+                dtype=file_fmt, skiprows=skip, 
                 usecols=range(file_fmt.itemsize // 8))).astype(fmt)
         
-        dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(
             re.escape(basename).replace('%d', r'(\d+)', 1) + '$')
 
-- 
2.43.0


From b25267b8d7134419b19439518dcea2d796347c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 52/64] fix: infer the format by the name of the file before
 its directories

A scene.h5 in a directory named xuap was taken for a template of xuap files,
and xuap frames in a directory that has ptv_is in its name for ptv_is ones.
---
 flowtracks/io.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index a4df49d..807fc7c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -559,14 +559,17 @@ def infer_format(fname):
         return 'mat'
     elif fname.endswith('/'):
         return 'npz'
-    elif 'ptv_is' in fname or fname.endswith('.txt'):
-        return 'ptvis'
-    elif 'xuap' in fname:
-        return 'xuap'
     elif fname.endswith('h5') or fname.endswith('hdf'):
         return 'hdf'
-    else:
-        return 'acc'
+    
+    # The name of the file tells more than these of its directories.
+    for name in (os.path.basename(fname), fname):
+        if 'ptv_is' in name or name.endswith('.txt'):
+            return 'ptvis'
+        elif 'xuap' in name:
+            return 'xuap'
+    
+    return 'acc'
 
 def collect_particles_mat(fname, frame, path_seg=False):
     """
-- 
2.43.0


From 8964dffbc4ea32cc5449ce793a792c5c1812e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 53/64] fix: range conditions without a limit on one side
 (infinite) are no query

---
 flowtracks/scene.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index b72cca9..3098ea6 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -66,10 +66,17 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
-        (key, cop1, smin, lop, key, cop2, smax)
+    # An infinite limit is no limit (and has no name in a query string).
+    conds = []
+    if smin != -np.inf:
+        conds.append("(%s %s %.17g)" % (key, cop1, smin))
+    if smax != np.inf:
+        conds.append("(%s %s %.17g)" % (key, cop2, smax))
+    if len(conds) == 0: # All values are in range, none out of it.
+        conds = ["(%s < 0)" % key, "(%s >= 0)" % key]
+        lop = '&' if invert else '|'
     
-    return cond_string
+    return '(' + (' %s ' % lop).join(conds) + ')'
     
 class Scene(object):
     """
-- 
2.43.0


From 38ef65e2644716b8762ac7e98a3af3fad7423829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 54/64] fix: small or unsigned types of time points overflow in
 particle_pairs()

---
 flowtracks/pairs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 28a49d0..af96618 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -29,13 +29,14 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         returns -1 as the pair_time value.
     """
     # Output buffers:
-    pair_trids = np.empty_like(time_points)
-    pair_time = np.empty_like(time_points)
+    # (the type of time_points may be too small for ids and frame numbers)
+    pair_trids = np.empty(len(time_points), dtype=int)
+    pair_time = np.empty(len(time_points), dtype=int)
     
     # Filter the primary set to only contain the trajectories actually required
     unique_prim = np.unique(trajids)
     prim_traj = [t for t in primary_trajects if t.trajid() in unique_prim]
-    frames = np.empty_like(time_points)
+    frames = np.empty(len(time_points), dtype=int)
     
     # Typify primary/secondary on a per trajectory basis before combining them
     # into a single snapshot.
-- 
2.43.0


From c5621104a442adb518dcaed74566206cabecf9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 55/64] fix: Sequence.subrange() gives floats, which
 iter_subrange() does not take

---
 flowtracks/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 68e3a29..ee83e0a 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -73,8 +73,8 @@ class Sequence(object):
         restricting the overall sequence.
         """
         trs = self.particle_trajectories()
-        mins = np.empty(len(trs))
-        maxs = np.empty(len(trs))
+        mins = np.empty(len(trs), dtype=int) # serve as a range.
+        maxs = np.empty(len(trs), dtype=int)
         
         for trn, tr in enumerate(trs):
             t = tr.time()
-- 
2.43.0


From a476103531768de7598c806d0677fa49dfb3a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 56/64] fix: savitzky_golay() overflows with a frame rate of a
 small integer type

---
 flowtracks/smoothing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 28f5ac9..25e97f9 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -55,6 +55,7 @@ def savitzky_golay(trajs, fps, window_size, order):
         raise TypeError("window_size size must be a positive odd number")
     if window_size < order + 2:
         raise TypeError("window_size is too small for the polynomials order")
+    fps = float(fps) # its powers may be too large for its type.
     order_range = range(order+1)
     half_window = (window_size -1) // 2
     
-- 
2.43.0


From 47c3299d0b692115fefae774a7e169d093db50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 57/64] fix: companion_indices() with companions of a small or
 unsigned integer type

The indices were put in an array of the companions' own type: unsigned
types can not hold the -1 of the ones not found (numpy raises), an int8
can not hold the index of the 129th tracer, and floats make indices that
can not be used as such. Indices are now of the default integer type.
---
 flowtracks/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 39e87f7..0f8f3c5 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -21,7 +21,7 @@ def companion_indices(trids, companions):
     Return an array giving for each companion its respective index in the 
     trajectory ID array, or a negative number if not found.
     """
-    comp = np.full_like(companions, -1)
+    comp = np.full(len(companions), -1)
     idx = np.nonzero(trids[:,None] == companions)
     comp[idx[1]] = idx[0]
     return comp
-- 
2.43.0


From 8b9088de25c77fbab30215214efc3bf2bc10068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 58/64] fix: the numerical Jacobian with a radius is of the
 recorded scene's interpolation

With a radius set, a direct call interpolates from all the tracers in it, and
the recorded scene from the nearest num_neighbs of them. eulerian_jacobian()
took the difference between one and the other, of no relation to a derivative
(it grows as 1/eps). Both are now interpolated as the recorded scene is.
---
 flowtracks/interpolation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 720d2f4..771d627 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -19,6 +19,7 @@ Interpolation routines.
 
 import numpy as np
 import warnings
+from copy import copy
 from scipy.spatial import cKDTree
 from configparser import ConfigParser
 
@@ -571,12 +572,13 @@ class GeneralInterpolant(object):
             local_interp = self.interpolate()
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
-        ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
-        ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp) 
-        ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
+        for axis in range(3):
+            # The same interpolation as that of the recorded scene (a direct 
+            # call has another choice of neighbours in a radius).
+            moved = copy(self)
+            moved.set_interp_points(self.__interp_pts + eps*np.eye(3)[axis],
+                self.__comp)
+            ret[:,:,axis] = moved.interpolate()
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From 49a44b2ac4953d2d4850bd7adb60717ab3365bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 59/64] fix: scenes and tables with properties named 't' or
 'trid' are read

PyTables takes a name in a condition for that of a column before it looks for
a local variable, so reading frames failed where there was a column 't', and
reading trajectories where there was a column 'trid'.
---
 flowtracks/an_scene.py | 10 +++++-----
 flowtracks/io.py       |  2 +-
 flowtracks/scene.py    | 14 +++++++-------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 351512c..1f8d5eb 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -61,11 +61,11 @@ class AnalysedScene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
-        if cond is not None:
-            query_string = '&'.join([query_string, cond])
-            
         for t in range(*self._scene.get_range()):
+            query_string = '(time == %d)' % t
+            if cond is not None:
+                query_string = '&'.join([query_string, cond])
+            
             yield t, self._table.read_where(query_string)
     
     def collect(self, keys, where=None):
@@ -158,7 +158,7 @@ class AnalysedScene(object):
         
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'trid': trid})
         
         # Trim the trajectory to match analysis. This normally leaves out the
         # last point, but also those before a gap or out of analysed range.
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 807fc7c..cf1ef41 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -891,7 +891,7 @@ def table_trajectories(outfile, first, last):
                 
     trajects = []
     for trid in np.unique(table.col('trajid')):
-        arr = table.read_where(query_string)
+        arr = table.read_where(query_string, {'trid': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 3098ea6..d54d997 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -200,7 +200,7 @@ class Scene(object):
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'trid': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
@@ -217,7 +217,7 @@ class Scene(object):
             query_string += ' & ' + self._frame_limit
         
         for trid in self._trids:
-            arr = self._table.read_where(query_string)
+            arr = self._table.read_where(query_string, {'trid': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
@@ -242,11 +242,11 @@ class Scene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
-        if cond is not None:
-            query_string = '&'.join([query_string, cond])
-            
         for t in range(self._first, self._last):
+            query_string = '(time == %d)' % t
+            if cond is not None:
+                query_string = '&'.join([query_string, cond])
+            
             yield t, self._table.read_where(query_string)
     
     def frame_by_time(self, t):
@@ -261,7 +261,7 @@ class Scene(object):
         a ParticleSnapshot object.
         """
         query_string = '(time == t)'
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'t': t})
         
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'time')
-- 
2.43.0


From 0249ee3d07e76ce233798d36510cdaae83788152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 60/64] fix: properties named 'id' or 't' do not replace the
 trajectory's id and the snapshot's time

The value of a property is in an attribute of its name with an underscore
before it, which the id and the time had too.
---
 flowtracks/trajectory.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index e6f6f32..9a42aa3 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -144,12 +144,13 @@ class Trajectory(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._id = trajid
+        # Private, lest it is taken for the value of a property named 'id'.
+        self.__id = trajid
         kwds['time'] = time
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def trajid(self):
-        return self._id    
+        return self.__id    
     
     def __getitem__(self, selector):
         """
@@ -161,7 +162,7 @@ class Trajectory(ParticleSet):
         """
         return np.hstack((self._pos[selector], self._velocity[selector],
             self._time[selector][...,None], 
-            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
+            np.ones(self._pos[selector].shape[:-1] + (1,))*self.__id))
             
     def smoothed(self, err_bound, order):
         """
@@ -212,12 +213,13 @@ class ParticleSnapshot(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._t = time
+        # Private, lest it is taken for the value of a property named 't'.
+        self.__t = time
         kwds['trajid'] = trajid
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def time(self):
-        return self._t
+        return self.__t
 
 
 def mark_unique_rows(all_rows):
-- 
2.43.0


From 8da85256e7876b05bd430740fb459280d3dd98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 61/64] fix: take_snapshot() does not truncate properties that
 have another type in the first trajectory

Properties of all trajectories were converted to the type which the first one
has, e.g. from float to integer.
---
 flowtracks/trajectory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9a42aa3..be4e735 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -303,9 +303,11 @@ def take_snapshot(trajects, frame, schema):
         kwds['time'] = frame
         return ParticleSnapshot(trajid=np.empty(0), **kwds)
 
+    # Trajectories may have the same property in different types.
     kwds = dict((k, np.empty(
         (len(trajects),) + v, 
-        dtype=trajects[0].__dict__['_' + k].dtype)) \
+        dtype=np.result_type(*set(
+            traj.__dict__['_' + k].dtype for traj in trajects)))) \
         for k, v in schema.items())
 
     copy_keys = list(kwds.keys())
-- 
2.43.0


From e0def8396d17cf9c3ec4cd6163559c06b1ae8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 62/64] fix: a sequence that is iterated over follows a
 selection of trajectories set meanwhile

The selectors clear the cache of trajectories, which was only filled when the
iteration began, so the next segment failed.
---
 flowtracks/sequence.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index ee83e0a..b704172 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -174,15 +174,16 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        # Make sure the particle trajectory cache is populated.
-        self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
+        for frame_num in range(first, last):
+            # Make sure the particle trajectory cache is populated, also if
+            # the selection changed since the last segment.
+            self.particle_trajectories()
+            self.__schema = self.__ptraj[0].schema()
         
-        # Make sure the tracers cache is populated:
-        self.tracer_trajectories()
-        self.__tschem = self.__ttraj[0].schema()
+            # Make sure the tracers cache is populated:
+            self.tracer_trajectories()
+            self.__tschem = self.__ttraj[0].schema()
         
-        for frame_num in range(first, last):
             self._frame = frame_num
             yield self._read_segment()
     
-- 
2.43.0


From ef7b9fe96bcb25b58d463e5a97e38190856e1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 63/64] fix: trimming points of an inverse-distance scene
 before weights are known

---
 flowtracks/interpolation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 771d627..ecd4500 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -692,6 +692,13 @@ class InverseDistanceWeighter(GeneralInterpolant):
         GeneralInterpolant.set_scene(self, tracer_pos, interp_points, data,
             companionship)
     
+    def _drop_neighbours_cache(self):
+        """
+        The weights depend on the neighbours, and are dropped with them.
+        """
+        GeneralInterpolant._drop_neighbours_cache(self)
+        self.__weights = None
+    
     def set_interp_points(self, points, companionship=None):
         GeneralInterpolant.set_interp_points(self, points, companionship)
         if len(self.field_positions()) == 0:
@@ -716,7 +723,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        if len(self.field_positions()) > 0: # otherwise there are no weights.
+        if self.__weights is not None: # otherwise not calculated yet.
             self.__weights = self.__weights[~which]
         
     def _apply_weights(self, weights, data):
-- 
2.43.0


From 30b4b970a49256349ecf1cca7bf98f18c3c39ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:26 +0000
Subject: [PATCH 64/64] fix: columns collected twice from an analysed scene

---
 flowtracks/an_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 1f8d5eb..a348191 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -134,7 +134,7 @@ class AnalysedScene(object):
             
             # For each dual frame, add the columns of specified keys to the list
             # of that key's results
-            for k in keys:
+            for k in res:
                 if k in pkeys:
                     res[k].append(p_arr[k])
                 else:
-- 
2.43.0

