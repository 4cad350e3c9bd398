From 2a6f3423a5ebd12d7529e5eeae421b6ae0472741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:39 +0000
Subject: [PATCH 01/49] fix: release repeated particles at their original
 position and with their original Variables

---
 parcels/particlesets/particlesetsoa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..f42c3e1 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,12 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            # copies, because kernels change the particle data in-place before the next release
+            self.repeatlon = self._collection.data['lon'].copy()
+            self.repeatlat = self._collection.data['lat'].copy()
+            self.repeatdepth = self._collection.data['depth'].copy()
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = self._collection.data[kwvar].copy()
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From 9e4e27a45bc858a2778c6188a9d944889e528f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 02/49] fix: look up multiple particle IDs in a sorted
 collection at the right indices

---
 parcels/particlesets/collectionsoa.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..3b28af8 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -369,20 +369,13 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.array([], dtype=np.intp)
+
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
-
-        # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
-            # Continue with the same bounds, but drop the median.
-            return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
-        elif self._data['id'][index] != sublist[median]:
+        index = low + bisect_left(self._data['id'][low:high], sublist[median])
+
+        if index == high or self._data['id'][index] != sublist[median]:
             # We can split, because we received the index that the median
             # ID would have been inserted in, but we do not return the
             # index and keep it in our search space.
@@ -394,7 +387,7 @@ class ParticleCollectionSOA(ParticleCollection):
         # result, and split the search space on it, without including it.
         left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index], dtype=np.intp), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From 7da608c73b132ee3d544855f579fab9e644dfb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 03/49] fix: do not reuse particle IDs after the creation of an
 empty ParticleSet

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 3b28af8..e454c54 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -95,7 +95,7 @@ class ParticleCollectionSOA(ParticleCollection):
             assert lon.size == kwargs[kwvar].size, (
                 '%s and positions (lon, lat, depth) don''t have the same lengths.' % kwvar)
 
-        offset = np.max(pid) if (pid is not None) and len(pid) > 0 else -1
+        offset = np.max(pid) if (pid is not None) and len(pid) > 0 else pclass.lastID - 1
         if MPI:
             mpi_comm = MPI.COMM_WORLD
             mpi_rank = mpi_comm.Get_rank()
-- 
2.43.0


From b9180adb4478db9739ca17e76b72b9a5e3eb78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 04/49] fix: do not share particle data after adding to an
 empty ParticleSet, and keep its sorted flag right

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index e454c54..e005129 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -417,8 +417,9 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: same_class._data[d].copy() for d in same_class._data}
             self._ncount = same_class.ncount
+            self._sorted = same_class._sorted
             return
 
         # Determine order of concatenation and update the sorted flag
-- 
2.43.0


From c1730d78d78ad3cb7c6f2ee8936d41db07d70a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 05/49] fix: keep the particle count right when indices to
 remove are given twice

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index e005129..076d61c 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -638,7 +638,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = self._data['id'].size  # indices may contain duplicates
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From eabdacb6ca128b1bf38604feee78815f18a0c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 06/49] fix: warning on mismatching particle times no longer
 aborts the output

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 076d61c..5d73271 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -845,7 +845,7 @@ class ParticleCollectionSOA(ParticleCollection):
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From 39b204bdc07cb8444597dc7659b73396d8ccd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 07/49] fix: write 'once' Variables of every particle that is
 written to file, also if it is deleted before an output time

---
 parcels/particlesets/collectionsoa.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 5d73271..65745d3 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -43,15 +43,6 @@ def _to_write_particles(pd, time):
             & (np.isfinite(pd['time'])))
 
 
-def _is_particle_started_yet(pd, time):
-    """We don't want to write a particle that is not started yet.
-    Particle will be written if:
-      * particle.time is equal to time argument of pfile.write()
-      * particle.time is before time (in case particle was deleted between previous export and current one)
-    """
-    return np.less_equal(pd['dt']*pd['time'], pd['dt']*time) | np.isclose(pd['time'], time)
-
-
 def _convert_to_flat_array(var):
     """Convert lists and single integers/floats to one-dimensional numpy arrays
 
@@ -852,7 +843,10 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    # exactly the particles written now, so that every trajectory in the output file has its 'once' Variables
+                    first_write = np.zeros(self._data['id'].size, dtype=bool)
+                    first_write[indices_to_write] = True
+                    first_write &= np.isin(self._data['id'], pfile.written_once, invert=True)
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From f921bdb6a3993fa52059c47e248117078c67169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 08/49] fix: do not mistake output in a directory with 'once'
 in its name for 'once' Variables

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..2552af1 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -270,7 +270,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if not file_list[0].endswith('_once.npy') else 0
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From dc31d98daf9ccd7e8d3b6615a4075fd80d5618be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 09/49] fix: export trajectories that were written more than
 once at the same time, e.g. when running back in time to the same file

---
 parcels/particlefile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 2552af1..49afcfd 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -252,7 +252,7 @@ class ParticleFile(object):
         """Read NPY-files for one variable using a loop over all files.
 
         :param file_list: List that  contains all file names in the output directory
-        :param time_steps: Number of time steps that were written in out directory
+        :param time_steps: Maximum number of times that a particle was written in out directory
         :param var: name of the variable to read
         """
         data = np.nan * np.zeros((self.maxid_written+1, time_steps))
@@ -298,6 +298,7 @@ class ParticleFile(object):
         global_maxid_written = -1
         global_time_written = []
         global_file_list = []
+        max_writes = 0  # a particle is at most once in each file of one temporary directory
         if len(self.var_names_once) > 0:
             global_file_list_once = []
         for tempwritedir in temp_names:
@@ -306,13 +307,14 @@ class ParticleFile(object):
                 global_maxid_written = np.max([global_maxid_written, pset_info_local['maxid_written']])
                 global_time_written += pset_info_local['time_written']
                 global_file_list += pset_info_local['file_list']
+                max_writes = max(max_writes, len(pset_info_local['file_list']))
                 if len(self.var_names_once) > 0:
                     global_file_list_once += pset_info_local['file_list_once']
         self.maxid_written = global_maxid_written
         self.time_written = np.unique(global_time_written)
 
         for var in self.var_names:
-            data = self.read_from_npy(global_file_list, len(self.time_written), var)
+            data = self.read_from_npy(global_file_list, max_writes, var)
             if var == self.var_names[0]:
                 self.open_netcdf_file(data.shape)
             varout = 'z' if var == 'depth' else var
-- 
2.43.0


From 8e04bce1eea0ea275dcb7a1ef913995daa3ddd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 10/49] fix: with dt=0, do not execute the kernels again for
 particles that already succeeded

---
 parcels/compilation/codegenerator.py | 2 +-
 parcels/kernel.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..5d7a77c 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1056,7 +1056,7 @@ class LoopGenerator(object):
                                c.Statement("break")])
                       )]
 
-        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT) || is_zero_dbl(particles->dt[pnum])", c.Block(body))
+        time_loop = c.While("particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT", c.Block(body))
         part_loop = c.For("pnum = 0", "pnum < num_particles", "++pnum",
                           c.Block([sign_end_part, reset_res_state, dt_pos, notstarted_continue, time_loop]))
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..283864c 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -304,7 +304,7 @@ class Kernel(object):
                     p.set_state(StateCode.Success)
                 continue
 
-            while p.state in [StateCode.Evaluate, OperationCode.Repeat] or np.isclose(dt, 0):
+            while p.state in [StateCode.Evaluate, OperationCode.Repeat]:
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
-- 
2.43.0


From bf98a52f4b8331a080664244c8a628750964cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 11/49] fix: in JIT mode, do not ignore the errors of all but
 the last VectorField in a SummedField

---
 parcels/compilation/codegenerator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 5d7a77c..79da27b 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -850,8 +850,7 @@ class KernelGenerator(ast.NodeVisitor):
             if fld.vector_type == '3D':
                 ccode_conv3 = fld.W.ccode_convert(*args)
                 statements.append(c.Statement("%s *= %s" % (var3, ccode_conv3)))
-            cstat += [c.Assign("err", ccode_eval), c.Block(statements)]
-        cstat += [c.Statement("CHECKSTATUS(err)")]
+            cstat += [c.Assign("err", ccode_eval), c.Block(statements), c.Statement("CHECKSTATUS(err)")]
         node.ccode = c.Block(cstat)
 
     def visit_NestedFieldEvalNode(self, node):
-- 
2.43.0


From 47161e501f0da9046643ddb427479050db555eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 12/49] fix: in JIT mode, a next dt set in a timestep that is
 not completed does not affect other particles

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 79da27b..8b3bab6 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1048,6 +1048,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               c.Assign("_next_dt_set", "0"),
                                dt_pos,
                                sign_end_part,
                                c.If("sign_dt != sign_end_part", c.Assign("__dt", "0")),
-- 
2.43.0


From ed6ad68c646f21b278c62b6278a54147e84dfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 13/49] fix: use the right grid points in
 linear_invdist_land_tracer interpolation in Scipy mode

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..905a247 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -913,7 +913,7 @@ class Field(object):
                                 return 0
                             else:
                                 return self.data[ti, yi+j, xi+i]
-                        elif land[i][j] == 0:
+                        elif land[j][i] == 0:
                             val += self.data[ti, yi+j, xi+i] / distance
                             w_sum += 1 / distance
                 return val / w_sum
@@ -962,7 +962,7 @@ class Field(object):
                                 if land[k][j][i] == 1:  # index search led us directly onto land
                                     return 0
                                 else:
-                                    return self.data[ti, zi+i, yi+j, xi+k]
+                                    return self.data[ti, zi+k, yi+j, xi+i]
                             elif land[k][j][i] == 0:
                                 val += self.data[ti, zi+k, yi+j, xi+i] / distance
                                 w_sum += 1 / distance
-- 
2.43.0


From 8ae7f293accb7639871e27cc116a113ad142dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:48 +0000
Subject: [PATCH 14/49] fix: with dt=0 or runtime=0, do not release repeated
 particles again

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..0e92183 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -416,7 +416,7 @@ class BaseParticleSet(NDCluster):
                 interupt_dts.append(self.repeatdt)
             callbackdt = np.min(np.array(interupt_dts))
         time = _starttime
-        if self.repeatdt:
+        if self.repeatdt and dt != 0:
             next_prelease = self.repeat_starttime + (abs(time - self.repeat_starttime) // self.repeatdt + 1) * self.repeatdt * np.sign(dt)
         else:
             next_prelease = np.infty if dt > 0 else - np.infty
-- 
2.43.0


From bc99594671d40dc43f37f27fe4580ebeee738e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:21 +0000
Subject: [PATCH 15/49] fix: read time series from files that have different
 numbers of timesteps

---
 parcels/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 905a247..075e56b 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -236,9 +236,8 @@ class Field(object):
                     ftime = filebuffer.time
                     timeslices.append(ftime)
                     dataFiles.append([fname] * len(ftime))
-            timeslices = np.array(timeslices)
             time = np.concatenate(timeslices)
-            dataFiles = np.concatenate(np.array(dataFiles))
+            dataFiles = np.concatenate(dataFiles)
         if time.size == 1 and time[0] is None:
             time[0] = 0
         time_origin = TimeConverter(time[0])
-- 
2.43.0


From c69a4087299a8597466829a4392b3dbb854cc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 16/49] fix: time_periodic Fields at the end of a period and
 after a run in another period with deferred loading

---
 parcels/field.py               |  8 ++++++--
 parcels/grid.py                |  3 +--
 parcels/include/index_search.h | 23 ++++++++---------------
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 075e56b..c086f60 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1055,12 +1055,16 @@ class Field(object):
         time_index = self.grid.time <= time
         if self.time_periodic:
             if time_index.all() or np.logical_not(time_index).all():
-                periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
+                period = self.grid.time_full[-1]-self.grid.time_full[0]
+                periods = int(math.floor((time-self.grid.time_full[0])/period))
+                tloc = time - periods*period
+                if self.grid.time[0] - tloc > abs(tloc + period - self.grid.time[-1]):
+                    periods -= 1  # the end of the period, when only the last time steps of the series are loaded
                 if isinstance(self.grid.periods, c_int):
                     self.grid.periods.value = periods
                 else:
                     self.grid.periods = periods
-                time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
+                time -= periods*period
                 time_index = self.grid.time <= time
                 ti = time_index.argmin() - 1 if time_index.any() else 0
                 return (ti, periods)
diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..eb1edb4 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -207,8 +207,7 @@ class Grid(object):
                     self.update_status = 'updated'
             if self.ti == -1:
                 self.time = self.time_full
-                self.ti, _ = f.time_index(time)
-                periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
+                self.ti, periods = f.time_index(time)
                 if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..f099861 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -435,23 +435,16 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
   if (*ti < 0)
     *ti = 0;
   if (time_periodic == 1){
-    if (*t < tvals[0]){
-      *ti = size-1;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
+    if (*t < tvals[0] || *t > tvals[size-1]){
+      double period = tfull_max-tfull_min;
+      *periods = (int) floor( (*t-tfull_min)/period);
+      *t -= *periods * period;
+      if (tvals[0] - *t > fabs(*t + period - tvals[size-1])){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
         *periods -= 1;
-        *t -= *periods * (tfull_max-tfull_min);
+        *t += period;
       }
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-    else if (*t > tvals[size-1]){
-      *ti = 0;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-  }          
+    }
+  }
   while (*ti < size-1 && *t > tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
   return SUCCESS;
-- 
2.43.0


From 94d83e30798c58260a73a240daf77599bab24ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 17/49] fix: time_periodic of fully loaded Fields that start
 later than the time origin of the FieldSet

---
 parcels/fieldset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a941e88..aea6350 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -231,8 +231,7 @@ class FieldSet(object):
                 continue
             assert isinstance(g.time_origin.time_origin, type(self.time_origin.time_origin)), 'time origins of different grids must be have the same type'
             g.time = g.time + self.time_origin.reltime(g.time_origin)
-            if g.defer_load:
-                g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
+            g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
             g.time_origin = self.time_origin
         if not hasattr(self, 'UV'):
             if isinstance(self.U, SummedField):
-- 
2.43.0


From c6e83d1c8c3697480df7c7357e3c4d8c482f7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:00 +0000
Subject: [PATCH 18/49] fix: determine the default allow_time_extrapolation in
 FieldSet.from_data for each Field

---
 parcels/fieldset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index aea6350..3682474 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -105,7 +105,9 @@ class FieldSet(object):
             cls.checkvaliddimensionsdict(dims)
 
             if allow_time_extrapolation is None:
-                allow_time_extrapolation = False if 'time' in dims else True
+                allow_extrapolation = False if 'time' in dims else True
+            else:
+                allow_extrapolation = allow_time_extrapolation
 
             lon = dims['lon']
             lat = dims['lat']
@@ -122,7 +124,7 @@ class FieldSet(object):
                 kwargs['creation_log'] = 'from_data'
 
             fields[name] = Field(name, datafld, grid=grid, transpose=transpose,
-                                 allow_time_extrapolation=allow_time_extrapolation, time_periodic=time_periodic, **kwargs)
+                                 allow_time_extrapolation=allow_extrapolation, time_periodic=time_periodic, **kwargs)
         u = fields.pop('U', None)
         v = fields.pop('V', None)
         return cls(u, v, fields=fields)
-- 
2.43.0


From c1d5fb83862253c24d770c8afe67c9be51c4127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:33 +0000
Subject: [PATCH 19/49] fix: interpolate to the last, periodic time step of
 fully loaded time_periodic Fields

---
 parcels/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index c086f60..b289c4e 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -159,6 +159,8 @@ class Field(object):
         self.vmax = vmax
 
         if not self.grid.defer_load:
+            if self.grid._add_last_periodic_data_timestep:
+                self.grid.tdim = self.grid.time.size - 1
             self.data = self.reshape(self.data, transpose)
 
             # Hack around the fact that NaN and ridiculously large values
@@ -172,6 +174,7 @@ class Field(object):
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
+                self.grid.tdim = self.grid.time.size
 
         self._scaling_factor = None
 
-- 
2.43.0


From c3355a4e3d2484b7067bc80a738dd1fe2131702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:53 +0000
Subject: [PATCH 20/49] fix: start backward runs with deferred loading between
 two time steps of the Fields

---
 parcels/grid.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index eb1edb4..21c8c53 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -208,11 +208,12 @@ class Grid(object):
             if self.ti == -1:
                 self.time = self.time_full
                 self.ti, periods = f.time_index(time)
-                if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
-                    self.ti = len(self.time)-1
-                    periods -= 1
-                if signdt == -1 and self.ti > 0:
-                    self.ti -= 1
+                if signdt == -1 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[self.ti]:
+                    if self.ti > 0:
+                        self.ti -= 1
+                    elif f.time_periodic:
+                        self.ti = len(self.time)-2
+                        periods -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
 
-- 
2.43.0


From 7858ddb188fb8abdf1a1ea6124c5e7158fbccc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:44 +0000
Subject: [PATCH 21/49] fix: load the first time step at the end of a longer
 period of time_periodic Fields with deferred loading

---
 parcels/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index b289c4e..fbef26f 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1369,7 +1369,10 @@ class Field(object):
         filebuffer.__enter__()
         time_data = filebuffer.time
         time_data = g.time_origin.reltime(time_data)
-        filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
+        if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1:
+            filebuffer.ti = 0  # the first time step of the series, repeated at the end of the period
+        else:
+            filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From 4c9ccdf46c66136447222a1462f3eb1e8b67a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:15 +0000
Subject: [PATCH 22/49] fix: only share a Grid between Fields that have exactly
 the same axes, and the same way of loading

---
 parcels/gridset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index ccc5d17..eaafc91 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -21,16 +21,22 @@ class GridSet(object):
                 existing_grid = True
                 break
             sameGrid = True
-            if grid.time_origin != g.time_origin:
+            if grid.time_origin != g.time_origin or grid.defer_load != g.defer_load:
                 continue
+            if grid.defer_load and g.time_handling != (field.time_periodic, field.allow_time_extrapolation):
+                continue  # the time steps in memory are different
             for attr in ['lon', 'lat', 'depth', 'time']:
                 gattr = getattr(g, attr)
                 gridattr = getattr(grid, attr)
-                if gattr.shape != gridattr.shape or not np.allclose(gattr, gridattr):
+                if gattr.shape != gridattr.shape or not np.array_equal(gattr, gridattr):
                     sameGrid = False
                     break
 
+            if (g.chunksize in [False, None]) != (grid.chunksize in [False, None]):
+                continue
             if (g.chunksize != grid.chunksize) and (grid.chunksize not in [False, None]):
+                if not isinstance(g.chunksize, dict) or set(g.chunksize) != set(grid.chunksize):
+                    continue
                 for dim in grid.chunksize:
                     if grid.chunksize[dim][1] != g.chunksize[dim][1]:
                         sameGrid &= False
@@ -43,6 +49,7 @@ class GridSet(object):
 
         if not existing_grid:
             self.grids.append(grid)
+            grid.time_handling = (field.time_periodic, field.allow_time_extrapolation)
         field.igrid = self.grids.index(field.grid)
 
     def dimrange(self, dim):
-- 
2.43.0


From 92b7418e8d13838bf1345ed183412c114e2ef952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 23/49] fix: keep the grouping of comparisons and boolean
 operators in JIT kernels

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 8b3bab6..df7b137 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -628,8 +628,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.ops[0])
         assert(len(node.comparators) == 1)
         self.visit(node.comparators[0])
-        node.ccode = "%s %s %s" % (node.left.ccode, node.ops[0].ccode,
-                                   node.comparators[0].ccode)
+        node.ccode = "(%s %s %s)" % (node.left.ccode, node.ops[0].ccode,
+                                     node.comparators[0].ccode)
 
     def visit_Index(self, node):
         self.visit(node.value)
@@ -706,7 +706,7 @@ class KernelGenerator(ast.NodeVisitor):
         for v in node.values:
             self.visit(v)
         op_str = " %s " % node.op.ccode
-        node.ccode = op_str.join([v.ccode for v in node.values])
+        node.ccode = "(%s)" % op_str.join([v.ccode for v in node.values])
 
     def visit_Eq(self, node):
         node.ccode = "=="
-- 
2.43.0


From c399b05080b592eb14989492c08481896a35138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 24/49] fix: support the logical operators & and | in JIT
 kernels, as documented

---
 parcels/compilation/codegenerator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index df7b137..d4db23a 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -698,6 +698,12 @@ class KernelGenerator(ast.NodeVisitor):
     def visit_Pow(self, node):
         node.ccode = "pow"
 
+    def visit_BitAnd(self, node):
+        node.ccode = "&"
+
+    def visit_BitOr(self, node):
+        node.ccode = "|"
+
     def visit_Num(self, node):
         node.ccode = str(node.n)
 
-- 
2.43.0


From 553f169f3ad551a5a1bbb0633eb2f070ed5fd193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 25/49] fix: array variables in a JIT kernel do not affect the
 variables of other kernels

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index d4db23a..0329a34 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -409,7 +409,6 @@ class KernelGenerator(ast.NodeVisitor):
 
     # Intrinsic variables that appear as function arguments
     kernel_vars = ['particle', 'fieldset', 'time', 'output_time', 'tol']
-    array_vars = []
 
     def __init__(self, fieldset=None, ptype=JITParticle):
         self.fieldset = fieldset
@@ -417,6 +416,7 @@ class KernelGenerator(ast.NodeVisitor):
         self.field_args = collections.OrderedDict()
         self.vector_field_args = collections.OrderedDict()
         self.const_args = collections.OrderedDict()
+        self.array_vars = []
 
     def generate(self, py_ast, funcvars):
         # Replace occurences of intrinsic objects in Python AST
-- 
2.43.0


From f997fbead4da0ca9fcf3502de7d78431fda73366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 26/49] fix: evaluate the tests of if and while statements in
 JIT kernels, and the Fields in them, at the right moment

---
 parcels/compilation/codegenerator.py | 41 +++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 0329a34..ecf2ab7 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -333,6 +333,29 @@ class IntrinsicTransformer(ast.NodeTransformer):
         else:
             return node
 
+    def visit_stmts(self, stmts):
+        """Visit a list of statements, some of which may be replaced by several statements"""
+        visited = []
+        for stmt in stmts:
+            stmt = self.visit(stmt)
+            visited += stmt if isinstance(stmt, list) else [stmt]
+        return visited
+
+    def visit_test(self, node):
+        """Visit an if or while statement, keeping the field evaluations in its test with the statement"""
+        node.test = self.visit(node.test)
+        node.test_evals = self.stmt_stack
+        self.stmt_stack = []
+        node.body = self.visit_stmts(node.body)
+        node.orelse = self.visit_stmts(node.orelse)
+        return node
+
+    def visit_If(self, node):
+        return self.visit_test(node)
+
+    def visit_While(self, node):
+        return self.visit_test(node)
+
     def visit_AugAssign(self, node):
         node.target = self.visit(node.target)
         node.op = self.visit(node.op)
@@ -613,11 +636,11 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         for b in node.orelse:
             self.visit(b)
-        # field evals are replaced by a tmp variable is added to the stack.
-        # Here it means field evals passes from node.test to node.body. We take it out manually
-        fieldInTestCount = node.test.ccode.count('parcels_tmpvar')
-        body0 = c.Block([b.ccode for b in node.body[:fieldInTestCount]])
-        body = c.Block([b.ccode for b in node.body[fieldInTestCount:]])
+        # the field evals in the test come before the if-statement
+        for e in node.test_evals:
+            self.visit(e)
+        body0 = c.Block([e.ccode for e in node.test_evals])
+        body = c.Block([b.ccode for b in node.body])
         orelse = c.Block([b.ccode for b in node.orelse]) if len(node.orelse) > 0 else None
         ifcode = c.If(node.test.ccode, body, orelse)
         node.ccode = c.Block([body0, ifcode])
@@ -747,8 +770,12 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         if len(node.orelse) > 0:
             raise RuntimeError("Else clause in while clauses cannot be translated to C")
-        body = c.Block([b.ccode for b in node.body])
-        node.ccode = c.DoWhile(node.test.ccode, body)
+        # the field evals in the test are needed before each iteration
+        for e in node.test_evals:
+            self.visit(e)
+        stop = c.If("!(%s)" % node.test.ccode, c.Block([c.Statement("break")]))
+        body = c.Block([e.ccode for e in node.test_evals] + [stop] + [b.ccode for b in node.body])
+        node.ccode = c.While("1==1", body)
 
     def visit_For(self, node):
         raise RuntimeError("For loops cannot be translated to C")
-- 
2.43.0


From 74e21050bd08a2b7737131b86055ae7c6809e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 27/49] fix: do not round the division of integers in JIT
 kernels

---
 parcels/compilation/codegenerator.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index ecf2ab7..02842ac 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -693,10 +693,25 @@ class KernelGenerator(ast.NodeVisitor):
                                "Did you intend to use the exponential/power operator? In that case, please use '**'")
         elif node.op.ccode == 'pow':  # catching '**' pow statements
             node.ccode = "pow(%s, %s)" % (node.left.ccode, node.right.ccode)
+        elif isinstance(node.op, ast.Div) and self._is_integer(node.left) and self._is_integer(node.right):
+            node.ccode = "((double)%s / %s)" % (node.left.ccode, node.right.ccode)
         else:
             node.ccode = "(%s %s %s)" % (node.left.ccode, node.op.ccode, node.right.ccode)
         node.s_print = True
 
+    def _is_integer(self, node):
+        """Whether the C type of an expression is an integer"""
+        if isinstance(node, ParticleAttributeNode):
+            return any(v.name == node.attr and np.issubdtype(v.dtype, np.integer) for v in self.ptype.variables)
+        elif isinstance(node, ast.BinOp):
+            return (not isinstance(node.op, (ast.Div, ast.Pow))
+                    and self._is_integer(node.left) and self._is_integer(node.right))
+        elif isinstance(node, ast.UnaryOp):
+            return isinstance(node.op, ast.Not) or self._is_integer(node.operand)
+        elif isinstance(node, ast.Constant):
+            return isinstance(node.value, (bool, int))
+        return isinstance(node, (ast.Compare, ast.BoolOp))
+
     def visit_Add(self, node):
         node.ccode = "+"
 
-- 
2.43.0


From 467de75ca950a61171df1c70f8b44d79a9d476a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:42 +0000
Subject: [PATCH 28/49] fix: assign tuples at once, and all targets of an
 assignment, in JIT kernels

---
 parcels/compilation/codegenerator.py | 52 +++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 02842ac..77af165 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -409,19 +409,52 @@ class IntrinsicTransformer(ast.NodeTransformer):
 
 class TupleSplitter(ast.NodeTransformer):
     """AST transformer that detects and splits Pythonic tuple
-    assignments into multiple statements for conversion to C."""
+    assignments and assignments to several targets into multiple
+    statements for conversion to C."""
+
+    def __init__(self):
+        # Names of the temporaries for values that are needed after the first assignment
+        self.tmp_vars = []
+
+    def get_tmp(self):
+        tmp = "parcels_tmpvar_assign%d" % len(self.tmp_vars)
+        self.tmp_vars += [tmp]
+        return tmp
+
+    @staticmethod
+    def _assign(target, value):
+        node = ast.Assign()
+        node.targets = [target]
+        node.value = value
+        return node
+
+    @staticmethod
+    def _variables(node):
+        """The variables that occur in an expression"""
+        return {n.id if isinstance(n, ast.Name) else n.ccode for n in ast.walk(node)
+                if isinstance(n, (ast.Name, ParticleAttributeNode))}
 
     def visit_Assign(self, node):
-        if isinstance(node.targets[0], ast.Tuple) \
-           and isinstance(node.value, ast.Tuple):
+        if len(node.targets) > 1:
+            if isinstance(node.value, (ast.List, ast.Tuple)):
+                raise NotImplementedError("Assigning a list or tuple to more than one target cannot be translated to C")
+            tmp = self.get_tmp()
+            node = ([self._assign(ast.Name(id=tmp), node.value)]
+                    + [self._assign(t, ast.Name(id=tmp)) for t in node.targets])
+        elif isinstance(node.targets[0], ast.Tuple) \
+                and isinstance(node.value, ast.Tuple):
             t_elts = node.targets[0].elts
             v_elts = node.value.elts
             if len(t_elts) != len(v_elts):
                 raise AttributeError("Tuple lenghts in assignment do not agree")
-            node = [ast.Assign() for _ in t_elts]
-            for n, t, v in zip(node, t_elts, v_elts):
-                n.targets = [t]
-                n.value = v
+            targets = [self._variables(t) for t in t_elts]
+            if any(self._variables(v) & t for i, v in enumerate(v_elts) for t in targets[:i]):
+                # All values are evaluated before the first assignment
+                tmp = [self.get_tmp() for _ in v_elts]
+                node = ([self._assign(ast.Name(id=n), v) for n, v in zip(tmp, v_elts)]
+                        + [self._assign(t, ast.Name(id=n)) for n, t in zip(tmp, t_elts)])
+            else:
+                node = [self._assign(t, v) for t, v in zip(t_elts, v_elts)]
         return node
 
 
@@ -447,7 +480,8 @@ class KernelGenerator(ast.NodeVisitor):
         py_ast = transformer.visit(py_ast)
 
         # Untangle Pythonic tuple-assignment statements
-        py_ast = TupleSplitter().visit(py_ast)
+        splitter = TupleSplitter()
+        py_ast = splitter.visit(py_ast)
 
         # Generate C-code for all nodes in the Python AST
         self.visit(py_ast)
@@ -474,6 +508,8 @@ class KernelGenerator(ast.NodeVisitor):
             self.ccode.body.insert(0, c.Value("type_coord", ", ".join(funcvars)))
         if len(transformer.tmp_vars) > 0:
             self.ccode.body.insert(0, c.Value("float", ", ".join(transformer.tmp_vars)))
+        if len(splitter.tmp_vars) > 0:
+            self.ccode.body.insert(0, c.Value("double", ", ".join(splitter.tmp_vars)))
 
         return self.ccode
 
-- 
2.43.0


From c9f96f079ef0ccbad4ee713248bf9d3c4c60f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:42 +0000
Subject: [PATCH 29/49] fix: keep the sum of a SummedField together in
 expressions of JIT kernels

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 77af165..1f9047b 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -288,7 +288,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             # Insert placeholder node for field eval ...
             self.stmt_stack += [SummedFieldEvalNode(node.value, node.slice, tmp)]
             # .. and return the name of the temporary that will be populated
-            return ast.Name(id='+'.join(tmp))
+            return ast.Name(id='(%s)' % '+'.join(tmp))
         elif isinstance(node.value, SummedVectorFieldNode):
             tmp = [self.get_tmp() for _ in range(len(node.value.obj))]
             tmp2 = [self.get_tmp() for _ in range(len(node.value.obj))]
@@ -297,9 +297,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [SummedVectorFieldEvalNode(node.value, node.slice, tmp, tmp2, tmp3)]
             # .. and return the name of the temporary that will be populated
             if all(tmp3):
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2)), ast.Name(id='+'.join(tmp3))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2)), ast.Name(id='(%s)' % '+'.join(tmp3))], ast.Load())
             else:
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2))], ast.Load())
         elif isinstance(node.value, FieldNode):
             tmp = self.get_tmp()
             # Insert placeholder node for field eval ...
-- 
2.43.0


From 875d7cc6f190faaa2e10571367b4e3b7192fe2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:34 +0000
Subject: [PATCH 30/49] fix: kernels that are used more than once in a sum of
 kernels work in JIT mode

---
 parcels/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 283864c..0c77ee2 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -467,7 +467,7 @@ class Kernel(object):
     def merge(self, kernel):
         funcname = self.funcname + kernel.funcname
         func_ast = FunctionDef(name=funcname, args=self.py_ast.args,
-                               body=self.py_ast.body + kernel.py_ast.body,
+                               body=deepcopy(self.py_ast.body) + deepcopy(kernel.py_ast.body),
                                decorator_list=[], lineno=1, col_offset=0)
         delete_cfiles = self.delete_cfiles and kernel.delete_cfiles
         return Kernel(self.fieldset, self.ptype, pyfunc=None,
-- 
2.43.0


From 25127e4d52ea80a31da9850ea09c5763ccadab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:56 +0000
Subject: [PATCH 31/49] fix: linear_invdist_land_tracer gives zero on land
 points with a single wet neighbour in JIT mode

---
 parcels/include/parcels.h | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..f71c1b6 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -76,7 +76,7 @@ static inline StatusCode spatial_interpolation_bilinear(double xsi, double eta,
 /* Bilinear interpolation routine for 2D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi, double eta, float data[2][2], float *value)
 {
-  int i, j, k, l, nb_land = 0, land[2][2] = {{0}};
+  int i, j, nb_land = 0, land[2][2] = {{0}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -85,27 +85,18 @@ static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi,
 	    land[i][j] = 1;
 	    nb_land++;
       }
-      else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-	    k = i;
-	    l = j;
-      }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_bilinear(xsi, eta, data, value);
-  case 3:  // single non-land point
-    *value = data[k][l];
-    return SUCCESS;
   case 4:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 or 2 land points
+  // interpolate with 1 to 3 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
@@ -175,7 +166,7 @@ static inline StatusCode spatial_interpolation_trilinear_bottom(double xsi, doub
 /* Trilinear interpolation routine for 3D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi, double eta, double zeta, float data[2][2][2], float *value)
 {
-  int i, j, k, l, m, n, nb_land = 0, land[2][2][2] = {{{0}}};
+  int i, j, k, nb_land = 0, land[2][2][2] = {{{0}}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -185,29 +176,19 @@ static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi
 	      land[i][j][k] = 1;
 	      nb_land++;
         }
-        else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-          l = i;
-          m = j;
-          n = k;
-        }
       }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_trilinear(xsi, eta, zeta, data, value);
-  case 7:  // single non-land point
-    *value = data[l][m][n];
-    return SUCCESS;
   case 8:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 to 6 land points
+  // interpolate with 1 to 7 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
-- 
2.43.0


From de4e2f5ce51b3a2d8daa5dbf62d101979fdb5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:56 +0000
Subject: [PATCH 32/49] fix: do not shift cells of flat C-grids that are wider
 than 180 in JIT mode

---
 parcels/include/parcels.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index f71c1b6..def22cf 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -609,10 +609,12 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
       ygrid_loc[iN] = ygrid[yi+iN/2][xi+min(1, (iN%3))];
     }
   }
-  int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    int i4;
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
 
@@ -773,10 +775,12 @@ static inline StatusCode spatial_interpolation_UVW_c_grid(double xsi, double eta
       ygrid_loc[iN] = ygrid[yi+iN/2][xi+min(1, (iN%3))];
     }
   }
-  int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    int i4;
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
   float u0 = dataU[0][1][0];
-- 
2.43.0


From 3ac5818999f4248cdb219e4285304809d2b947d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:56 +0000
Subject: [PATCH 33/49] fix: do not use the bottom level in the uppermost cell
 of MOM5 grids in Scipy mode

---
 parcels/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index fbef26f..5b43d56 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1003,13 +1003,14 @@ class Field(object):
                 xsi*(1-eta) * data[yi, xi+1] + \
                 xsi*eta * data[yi+1, xi+1] + \
                 (1-xsi)*eta * data[yi+1, xi]
-            if self.interp_method == 'bgrid_w_velocity' and self.gridindexingtype == 'mom5' and zi == -1:
+            if self.gridindexingtype == 'mom5' and zi == -1:
                 # Since MOM5 is indexed at cell bottom, allow linear interpolation of W to zero in uppermost cell
                 return zeta * f1
             else:
                 return (1-zeta) * f0 + zeta * f1
         elif self.interp_method in ['cgrid_tracer', 'bgrid_tracer']:
-            return self.data[ti, zi, yi+1, xi+1]
+            # zi is -1 in the uppermost cell of MOM5 grids
+            return self.data[ti, max(zi, 0), yi+1, xi+1]
         else:
             raise RuntimeError(self.interp_method+" is not implemented for 3D grids")
 
-- 
2.43.0


From 4f7f5b22aa5209a2f96d9e05ed01c22eef31a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:21 +0000
Subject: [PATCH 34/49] fix: particles that are marked for deletion outside of
 a kernel are removed in the next execution

---
 parcels/kernel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 0c77ee2..05a8e4c 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -396,6 +396,11 @@ class Kernel(object):
 
     def execute(self, pset, endtime, dt, recovery=None, output_file=None, execute_once=False):
         """Execute this Kernel over a ParticleSet for several timesteps"""
+        # Remove all particles that were marked for deletion since the previous execution
+        if type(pset).__name__ in ['ParticleSetSOA', ]:
+            self.remove_deleted_soa(pset, output_file=output_file, endtime=endtime)
+        else:
+            self.remove_deleted(pset, output_file=output_file, endtime=endtime)   # Generalizable version!
         pset.collection.state[:] = StateCode.Evaluate
 
         if abs(dt) < 1e-6 and not execute_once:
-- 
2.43.0


From 740ebfce3183a4c82ffd2d4e01cf71656b0525b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 35/49] fix: adding a Field to a SummedField makes a new
 SummedField

---
 parcels/field.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 5b43d56..1831fdf 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1393,8 +1393,7 @@ class Field(object):
             return SummedField('_SummedField', [self, field])
         elif isinstance(field, SummedField):
             assert isinstance(self, type(field[0])), 'Fields in a SummedField should be either all scalars or all vectors'
-            field.insert(0, self)
-            return field
+            return SummedField(field.name, [self] + list(field))
 
 
 class VectorField(object):
@@ -1779,11 +1778,10 @@ class SummedField(list):
     def __add__(self, field):
         if isinstance(field, Field):
             assert isinstance(self[0], type(field)), 'Fields in a SummedField should be either all scalars or all vectors'
-            self.append(field)
+            return SummedField(self.name, list(self) + [field])
         elif isinstance(field, SummedField):
             assert isinstance(self[0], type(field[0])), 'Fields in a SummedField should be either all scalars or all vectors'
-            for fld in field:
-                self.append(fld)
+            return SummedField(self.name, list(self) + list(field))
         return self
 
 
-- 
2.43.0


From 207e30b2d27d9aaaaee6f19055b62fd9ec59c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 36/49] fix: add the periodic halo also to the Fields in
 SummedFields and NestedFields

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 3682474..c69d4de 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -967,7 +967,7 @@ class FieldSet(object):
 
         for grid in self.gridset.grids:
             grid.add_periodic_halo(zonal, meridional, halosize)
-        for attr, value in iter(self.__dict__.items()):
+        for value in self.get_fields():
             if isinstance(value, Field):
                 value.add_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 28d5d83f7a4700513900c6aa022fe33a8b840d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 37/49] fix: particles can enter the meridional halo of
 curvilinear grids

---
 parcels/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/grid.py b/parcels/grid.py
index 21c8c53..1d6817a 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -434,6 +434,7 @@ class CurvilinearGrid(Grid):
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
             self.meridional_halo = halosize
+        self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, CurvilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 6acd77850f413a613ab65216f0c7c7bdeaf961df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 38/49] fix: particles beyond the zonal halo of a flat mesh are
 out of bounds

---
 parcels/field.py               | 4 ++--
 parcels/include/index_search.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1831fdf..1e256ad 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -703,7 +703,7 @@ class Field(object):
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
         grid = self.grid
 
-        if grid.xdim > 1 and (not grid.zonal_periodic):
+        if grid.xdim > 1 and (not grid.zonal_periodic or grid.mesh == 'flat'):
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
                 raise FieldOutOfBoundError(x, y, z, field=self)
         if grid.ydim > 1 and (y < grid.lonlat_minmax[2] or y > grid.lonlat_minmax[3]):
@@ -803,7 +803,7 @@ class Field(object):
         maxIterSearch = 1e6
         it = 0
         tol = 1.e-10
-        if not grid.zonal_periodic:
+        if not grid.zonal_periodic or grid.mesh == 'flat':
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
                 if grid.lon[0, 0] < grid.lon[0, -1]:
                     raise FieldOutOfBoundError(x, y, z, field=self)
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f099861..1e6388c 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -182,7 +182,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   int zonal_periodic = grid->zonal_periodic;
   int z4d = grid->z4d;
 
-  if (zonal_periodic == 0){
+  if ((zonal_periodic == 0) || (sphere_mesh == 0)){
     if ((xdim > 1) && ((x < xy_minmax[0]) || (x > xy_minmax[1])))
       return ERROR_OUT_OF_BOUNDS;
   }
@@ -291,7 +291,7 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
   float (* xgrid)[xdim] = (float (*)[xdim]) xvals;
   float (* ygrid)[xdim] = (float (*)[xdim]) yvals;
 
-  if (zonal_periodic == 0){
+  if ((zonal_periodic == 0) || (sphere_mesh == 0)){
     if ((x < xy_minmax[0]) || (x > xy_minmax[1])){
       if (xgrid[0][0] < xgrid[0][xdim-1]) {return ERROR_OUT_OF_BOUNDS;}
       else if (x < xgrid[0][0] && x > xgrid[0][xdim-1]) {return ERROR_OUT_OF_BOUNDS;}
-- 
2.43.0


From 090c5f045014313484b853592d27147f9dbdf98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 39/49] fix: deferred loading of Fields with halos of different
 sizes, or larger than the Field

---
 parcels/field.py | 6 ++++--
 parcels/grid.py  | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1e256ad..bd6e264 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -535,8 +535,10 @@ class Field(object):
                                    self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
                  'Flag transpose=True could help to reorder the data.' % self.name)
-        if self.grid.meridional_halo > 0 or self.grid.zonal_halo > 0:
-            data = self.add_periodic_halo(zonal=self.grid.zonal_halo > 0, meridional=self.grid.meridional_halo > 0, halosize=max(self.grid.meridional_halo, self.grid.zonal_halo), data=data)
+        if self.grid.zonal_halo > 0:
+            data = self.add_periodic_halo(zonal=True, meridional=False, halosize=self.grid.zonal_halo, data=data)
+        if self.grid.meridional_halo > 0:
+            data = self.add_periodic_halo(zonal=False, meridional=True, halosize=self.grid.meridional_halo, data=data)
         return data
 
     def set_scaling_factor(self, factor):
diff --git a/parcels/grid.py b/parcels/grid.py
index 1d6817a..a4572e5 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -290,17 +290,17 @@ class RectilinearGrid(Grid):
                 logger.warning_once("The zonal halo is located at the east and west of current grid, with a dx = lon[1]-lon[0] between the last nodes of the original grid and the first ones of the halo. In your grid, lon[1]-lon[0] != lon[-1]-lon[-2]. Is the halo computed as you expect?")
             self.lon = np.concatenate((self.lon[-halosize:] - lonshift,
                                       self.lon, self.lon[0:halosize] + lonshift))
+            self.zonal_halo = min(halosize, self.xdim)
             self.xdim = self.lon.size
             self.zonal_periodic = True
-            self.zonal_halo = halosize
         if meridional:
             if not np.allclose(self.lat[1]-self.lat[0], self.lat[-1]-self.lat[-2]):
                 logger.warning_once("The meridional halo is located at the north and south of current grid, with a dy = lat[1]-lat[0] between the last nodes of the original grid and the first ones of the halo. In your grid, lat[1]-lat[0] != lat[-1]-lat[-2]. Is the halo computed as you expect?")
             latshift = (self.lat[-1] - 2 * self.lat[0] + self.lat[1])
             self.lat = np.concatenate((self.lat[-halosize:] - latshift,
                                       self.lat, self.lat[0:halosize] + latshift))
+            self.meridional_halo = min(halosize, self.ydim)
             self.ydim = self.lat.size
-            self.meridional_halo = halosize
         self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, RectilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
@@ -417,10 +417,10 @@ class CurvilinearGrid(Grid):
             self.lat = np.concatenate((self.lat[:, -halosize:],
                                        self.lat, self.lat[:, 0:halosize]),
                                       axis=len(self.lat.shape)-1)
+            self.zonal_halo = min(halosize, self.xdim)
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
             self.zonal_periodic = True
-            self.zonal_halo = halosize
         if meridional:
             if not np.allclose(self.lat[1, :]-self.lat[0, :], self.lat[-1, :]-self.lat[-2, :]):
                 logger.warning_once("The meridional halo is located at the north and south of current grid, with a dy = lat[1,:]-lat[0,:] between the last nodes of the original grid and the first ones of the halo. In your grid, lat[1,:]-lat[0,:] != lat[-1,:]-lat[-2,:]. Is the halo computed as you expect?")
@@ -431,9 +431,9 @@ class CurvilinearGrid(Grid):
             self.lon = np.concatenate((self.lon[-halosize:, :],
                                        self.lon, self.lon[0:halosize, :]),
                                       axis=len(self.lon.shape)-2)
+            self.meridional_halo = min(halosize, self.ydim)
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
-            self.meridional_halo = halosize
         self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, CurvilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
-- 
2.43.0


From 4e6bff1f176f46bbf65bd5c285ca4b8492b39885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 40/49] fix: interpolate over the edges of chunks of a single
 point in JIT mode

---
 parcels/include/parcels.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index def22cf..2a59bc2 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -311,14 +311,17 @@ static inline StatusCode getCell2D(CField *f, int xi, int yi, int ti, float cell
   int ydim = chunk_info[1+ndim+block[0]];
   int yshift = chunk_info[1];
   int xdim = chunk_info[1+ndim+yshift+block[1]];
+  // dimensions in which the field has one point only
+  int ysingle = (ydim == 1) && (chunk_info[1] == 1);
+  int xsingle = (xdim == 1) && (chunk_info[2] == 1);
 
-  if (((ilocal[0] == ydim-1) && (ydim > 1)) || ((ilocal[1] == xdim-1) && (xdim > 1)))
+  if (((ilocal[0] == ydim-1) && !ysingle) || ((ilocal[1] == xdim-1) && !xsingle))
   {
     // Cell is on multiple chunks
     for (tii=0; tii<2; ++tii){
       for (yii=0; yii<2; ++yii){
         for (xii=0; xii<2; ++xii){
-          blockid = getBlock2D(chunk_info, yi+yii, xi+xii, block, ilocal);
+          blockid = getBlock2D(chunk_info, yi+(ysingle ? 0 : yii), xi+(xsingle ? 0 : xii), block, ilocal);
           if (grid->load_chunk[blockid] < 2){
             grid->load_chunk[blockid] = 1;
             return REPEAT;
@@ -405,15 +408,19 @@ static inline StatusCode getCell3D(CField *f, int xi, int yi, int zi, int ti, fl
   int ydim = chunk_info[1+ndim+zshift+block[1]];
   int yshift = chunk_info[1+1];
   int xdim = chunk_info[1+ndim+zshift+yshift+block[2]];
+  // dimensions in which the field has one point only
+  int zsingle = (zdim == 1) && (chunk_info[1] == 1);
+  int ysingle = (ydim == 1) && (chunk_info[2] == 1);
+  int xsingle = (xdim == 1) && (chunk_info[3] == 1);
 
-  if (((ilocal[0] == zdim-1) && zdim > 1) || ((ilocal[1] == ydim-1) && ydim > 1) || ((ilocal[2] == xdim-1) && xdim >1))
+  if (((ilocal[0] == zdim-1) && !zsingle) || ((ilocal[1] == ydim-1) && !ysingle) || ((ilocal[2] == xdim-1) && !xsingle))
   {
     // Cell is on multiple chunks\n
     for (tii=0; tii<2; ++tii){
       for (zii=0; zii<2; ++zii){
         for (yii=0; yii<2; ++yii){
           for (xii=0; xii<2; ++xii){
-            blockid = getBlock3D(chunk_info, zi+zii, yi+yii, xi+xii, block, ilocal);
+            blockid = getBlock3D(chunk_info, zi+(zsingle ? 0 : zii), yi+(ysingle ? 0 : yii), xi+(xsingle ? 0 : xii), block, ilocal);
             if (grid->load_chunk[blockid] < 2){
               grid->load_chunk[blockid] = 1;
               return REPEAT;
-- 
2.43.0


From a191f790097c14d8487da886db3ccb604fbc5d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 41/49] fix: find particles in curvilinear cells whose points
 are ordered clockwise

Where rows go from north to south (or columns from east to west), the wrong
one of the two solutions for the position in a cell was taken, so that
particles were out of bounds.
---
 parcels/field.py               | 2 ++
 parcels/include/index_search.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index bd6e264..aed3f05 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -834,6 +834,8 @@ class Field(object):
                 det2 = bb*bb-4*aa*cc
                 if det2 > 0:  # so, if det is nan we keep the xsi, eta from previous iter
                     det = np.sqrt(det2)
+                    if (a[1]+a[3]/2)*(b[2]+b[3]/2) < (b[1]+b[3]/2)*(a[2]+a[3]/2):  # clockwise cell
+                        det = -det
                     eta = (-bb+det)/(2*aa)
             if abs(a[1]+a[3]*eta) < 1e-12:  # this happens when recti cell rotated of 90deg
                 xsi = ((y-py[0])/(py[1]-py[0]) + (y-py[3])/(py[2]-py[3])) * .5
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 1e6388c..b910d9d 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -334,6 +334,8 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
       *eta = -cc / bb;
     else{
       double det = sqrt(bb*bb-4*aa*cc);
+      if ((a[1]+a[3]/2)*(b[2]+b[3]/2) < (b[1]+b[3]/2)*(a[2]+a[3]/2))  // clockwise cell
+        det = -det;
       if (det == det)  // so, if det is nan we keep the xsi, eta from previous iter
         *eta = (-bb+det)/(2*aa);
     }
-- 
2.43.0


From 642cd726d1ccd6670beb58227136a73c4ea17da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 42/49] fix: use for each variable its own fieldtype in
 FieldSet.from_netcdf

The fieldtype of the first variable was used for all.
---
 parcels/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index c69d4de..4cb7110 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -370,7 +370,7 @@ class FieldSet(object):
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
             inds = indices[var] if (indices and var in indices) else indices
-            fieldtype = fieldtype[var] if (fieldtype and var in fieldtype) else fieldtype
+            varfieldtype = fieldtype.get(var) if isinstance(fieldtype, dict) else fieldtype
             varchunksize = chunksize[var] if (chunksize and var in chunksize) else chunksize  # <varname> -> {<netcdf_dimname>: (<parcels_dimname>, <chunksize_as_int_numeral>) }
 
             grid = None
@@ -410,7 +410,7 @@ class FieldSet(object):
             fields[var] = Field.from_netcdf(paths, (var, name), dims, inds, grid=grid, mesh=mesh, timestamps=timestamps,
                                             allow_time_extrapolation=allow_time_extrapolation,
                                             time_periodic=time_periodic, deferred_load=deferred_load,
-                                            fieldtype=fieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
+                                            fieldtype=varfieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
 
         u = fields.pop('U', None)
         v = fields.pop('V', None)
-- 
2.43.0


From e844b81c202bb6717009636eec8d279aba5d5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 43/49] fix: share grids in FieldSet.from_netcdf only if they
 are the same

Variables with the same names of dimensions (given for each variable) but
other coordinate files, or with data files with other time slices, got the
grid of the first variable. Filenames given per dimension for all variables
raised a KeyError, and so did chunksizes that differ in kind.
---
 parcels/field.py    |  9 +++++++--
 parcels/fieldset.py | 17 +++++------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index aed3f05..9c253c4 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -381,9 +381,14 @@ class Field(object):
         elif grid is not None and ('dataFiles' not in kwargs or kwargs['dataFiles'] is None):
             # ==== means: the field has a shared grid, but may have different data files, so we need to collect the
             # ==== correct file time series again.
-            _, _, _, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
-                                                        dimensions, indices, netcdf_engine)
+            time, time_origin, timeslices, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
+                                                                              dimensions, indices, netcdf_engine)
             kwargs['dataFiles'] = dataFiles
+            if hasattr(grid, 'timeslices') and (len(timeslices) != len(grid.timeslices)
+                                                or not all(np.array_equal(t, g) for t, g in zip(timeslices, grid.timeslices))):
+                # ==== the other data files have other time slices
+                grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
+                grid.timeslices = timeslices
 
         chunksize = kwargs.get('chunksize', None)
         grid.chunksize = chunksize
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 4cb7110..ccdfb54 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -383,25 +383,18 @@ class FieldSet(object):
                 procchunk = chunksize[procvar] if (chunksize and procvar in chunksize) else chunksize
                 nowpaths = filenames[var] if isinstance(filenames, dict) and var in filenames else filenames
                 if procdims == dims and procinds == inds:
-                    possibly_samegrid = True
-                    if procchunk != varchunksize:
-                        for dim in varchunksize:
-                            if varchunksize[dim][1] != procchunk[dim][1]:
-                                possibly_samegrid &= False
-                    if not possibly_samegrid:
+                    chunks = [{d: c[d][1] for d in c} if isinstance(c, dict) else c for c in (procchunk, varchunksize)]
+                    if chunks[0] != chunks[1]:
                         break
                     if varchunksize == 'auto':
                         break
                     if 'depth' in dims and dims['depth'] == 'not_yet_set':
                         break
                     processedGrid = False
-                    if ((not isinstance(filenames, dict)) or filenames[procvar] == filenames[var]):
+                    if procpaths == nowpaths:
                         processedGrid = True
-                    elif isinstance(filenames[procvar], dict):
-                        processedGrid = True
-                        for dim in ['lon', 'lat', 'depth']:
-                            if dim in dimensions:
-                                processedGrid *= filenames[procvar][dim] == filenames[var][dim]
+                    elif isinstance(procpaths, dict) and isinstance(nowpaths, dict):
+                        processedGrid = all(procpaths.get(dim) == nowpaths.get(dim) for dim in ['lon', 'lat', 'depth'] if dim in dims)
                     if processedGrid:
                         grid = fields[procvar].grid
                         if procpaths == nowpaths:
-- 
2.43.0


From 4d1b5ab03c8db833b54af607a77f874b201710aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 44/49] fix: load several timestamps per file without deferred
 loading

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 9c253c4..58d685d 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -229,8 +229,8 @@ class Field(object):
             for findex in range(len(data_filenames)):
                 for f in [data_filenames[findex], ] * len(timestamps[findex]):
                     dataFiles.append(f)
-            timeslices = np.array([stamp for file in timestamps for stamp in file])
-            time = timeslices
+            timeslices = [np.array(file) for file in timestamps]
+            time = np.concatenate(timeslices)
         else:
             timeslices = []
             dataFiles = []
-- 
2.43.0


From f83976cac2c3d084bb8507f64020fe3d357ac20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 45/49] fix: convert times with Unit for each variable in
 FieldSet.from_xarray_dataset

---
 parcels/fieldset.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index ccdfb54..ea40fe5 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -902,14 +902,13 @@ class FieldSet(object):
         fields = {}
         if 'creation_log' not in kwargs.keys():
             kwargs['creation_log'] = 'from_xarray_dataset'
-        if 'time' in dimensions:
-            if 'units' not in ds[dimensions['time']].attrs and 'Unit' in ds[dimensions['time']].attrs:
-                # Fix DataArrays that have time.Unit instead of expected time.units
-                convert_xarray_time_units(ds, dimensions['time'])
 
         for var, name in variables.items():
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
+            if 'time' in dims and 'units' not in ds[dims['time']].attrs and 'Unit' in ds[dims['time']].attrs:
+                # Fix DataArrays that have time.Unit instead of expected time.units
+                convert_xarray_time_units(ds, dims['time'])
 
             fields[var] = Field.from_xarray(ds[name], var, dims, mesh=mesh, allow_time_extrapolation=allow_time_extrapolation,
                                             time_periodic=time_periodic, **kwargs)
-- 
2.43.0


From 9f3278274efe8c5e76fbe942d7fdad180ff2e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 46/49] fix: make Fields from xarray periodic in time when
 asked to

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 58d685d..bb9efb0 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -492,7 +492,7 @@ class Field(object):
 
         grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
         return cls(name, data, grid=grid, allow_time_extrapolation=allow_time_extrapolation,
-                   interp_method=interp_method, **kwargs)
+                   interp_method=interp_method, time_periodic=time_periodic, **kwargs)
 
     def reshape(self, data, transpose=False):
 
-- 
2.43.0


From 555aa920ac943f91dd0c4cf6990593d1f72727ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 47/49] fix: do not share the grids of deferred Fields with
 latitudes in different orders

---
 parcels/gridset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index eaafc91..87f5120 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -23,6 +23,8 @@ class GridSet(object):
             sameGrid = True
             if grid.time_origin != g.time_origin or grid.defer_load != g.defer_load:
                 continue
+            if grid.defer_load and g.lat_flipped != grid.lat_flipped:
+                continue  # the data that are loaded later need to be flipped, too, or not
             if grid.defer_load and g.time_handling != (field.time_periodic, field.allow_time_extrapolation):
                 continue  # the time steps in memory are different
             for attr in ['lon', 'lat', 'depth', 'time']:
-- 
2.43.0


From 2f3015689e1aa61c0b4c3d560c5730977225ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 48/49] fix: load deferred Fields anew after an error stopped
 their loading

---
 parcels/fieldset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index ea40fe5..c6e4003 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -1020,6 +1020,8 @@ class FieldSet(object):
         nextTime = np.infty if dt > 0 else -np.infty
 
         for g in self.gridset.grids:
+            if g.defer_load and getattr(g, 'update_status', 'not_updated') != 'not_updated':
+                g.ti, g.time = -1, g.time_full  # loading stopped with an error before, so load anew
             g.update_status = 'not_updated'
         for f in self.get_fields():
             if type(f) in [VectorField, NestedField, SummedField] or not f.grid.defer_load:
@@ -1151,6 +1153,9 @@ class FieldSet(object):
                 depth_data = f.grid.depth_field.data
                 f.grid.depth = depth_data if isinstance(depth_data, np.ndarray) else np.array(depth_data)
 
+        for g in self.gridset.grids:
+            g.update_status = 'not_updated'
+
         if abs(nextTime) == np.infty or np.isnan(nextTime):  # Second happens when dt=0
             return nextTime
         else:
-- 
2.43.0


From e8ae789e932a0143b23fe9e82489863cf2250361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 49/49] fix: use for each component of a VectorField its own
 interp_method in JIT mode

---
 parcels/field.py          |  8 ++++----
 parcels/include/parcels.h | 21 +++++++++++----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index bb9efb0..b4f1c51 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1700,14 +1700,14 @@ class VectorField(object):
             return "temporal_interpolationUVW(%s, %s, %s, %s, %s, %s, %s, " \
                    % (x, y, z, t, U.ccode_name, V.ccode_name, W.ccode_name) + \
                    "&particles->xi[pnum*ngrid], &particles->yi[pnum*ngrid], &particles->zi[pnum*ngrid], &particles->ti[pnum*ngrid]," \
-                   "&%s, &%s, &%s, %s, %s)" \
-                   % (varU, varV, varW, U.interp_method.upper(), U.gridindexingtype.upper())
+                   "&%s, &%s, &%s, %s, %s, %s, %s)" \
+                   % (varU, varV, varW, U.interp_method.upper(), V.interp_method.upper(), W.interp_method.upper(), U.gridindexingtype.upper())
         else:
             return "temporal_interpolationUV(%s, %s, %s, %s, %s, %s, " \
                    % (x, y, z, t, U.ccode_name, V.ccode_name) + \
                    "&particles->xi[pnum*ngrid], &particles->yi[pnum*ngrid], &particles->zi[pnum*ngrid], &particles->ti[pnum*ngrid]," \
-                   " &%s, &%s, %s, %s)" \
-                   % (varU, varV, U.interp_method.upper(), U.gridindexingtype.upper())
+                   " &%s, &%s, %s, %s, %s)" \
+                   % (varU, varV, U.interp_method.upper(), V.interp_method.upper(), U.gridindexingtype.upper())
 
 
 class DeferredArray():
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 2a59bc2..0520ca0 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -965,18 +965,18 @@ static inline StatusCode temporal_interpolation(type_coord x, type_coord y, type
 static inline StatusCode temporal_interpolationUV(type_coord x, type_coord y, type_coord z, double time,
                                                  CField *U, CField *V,
                                                  int *xi, int *yi, int *zi, int *ti,
-                                                 float *valueU, float *valueV, int interp_method, int gridindexingtype)
+                                                 float *valueU, float *valueV, int interp_methodU, int interp_methodV, int gridindexingtype)
 {
   StatusCode status;
-  if (interp_method == CGRID_VELOCITY){
+  if (interp_methodU == CGRID_VELOCITY){
     CGrid *_grid = U->grid;
     GridCode gcode = _grid->gtype;
     status = temporal_interpolationUV_c_grid(x, y, z, time, U, V, gcode, xi, yi, zi, ti, valueU, valueV, gridindexingtype); CHECKSTATUS(status);
     return SUCCESS;
   }
   else{
-    status = temporal_interpolation(x, y, z, time, U, xi, yi, zi, ti, valueU, interp_method, gridindexingtype); CHECKSTATUS(status);
-    status = temporal_interpolation(x, y, z, time, V, xi, yi, zi, ti, valueV, interp_method, gridindexingtype); CHECKSTATUS(status);
+    status = temporal_interpolation(x, y, z, time, U, xi, yi, zi, ti, valueU, interp_methodU, gridindexingtype); CHECKSTATUS(status);
+    status = temporal_interpolation(x, y, z, time, V, xi, yi, zi, ti, valueV, interp_methodV, gridindexingtype); CHECKSTATUS(status);
     return SUCCESS;
   }
 }
@@ -984,10 +984,11 @@ static inline StatusCode temporal_interpolationUV(type_coord x, type_coord y, ty
 static inline StatusCode temporal_interpolationUVW(type_coord x, type_coord y, type_coord z, double time,
                                                   CField *U, CField *V, CField *W,
                                                   int *xi, int *yi, int *zi, int *ti,
-                                                  float *valueU, float *valueV, float *valueW, int interp_method, int gridindexingtype)
+                                                  float *valueU, float *valueV, float *valueW,
+                                                  int interp_methodU, int interp_methodV, int interp_methodW, int gridindexingtype)
 {
   StatusCode status;
-  if (interp_method == CGRID_VELOCITY){
+  if (interp_methodU == CGRID_VELOCITY){
     CGrid *_grid = U->grid;
     GridCode gcode = _grid->gtype;
     if (gcode == RECTILINEAR_S_GRID || gcode == CURVILINEAR_S_GRID){
@@ -995,10 +996,10 @@ static inline StatusCode temporal_interpolationUVW(type_coord x, type_coord y, t
       return SUCCESS;
     }
   }
-  status = temporal_interpolationUV(x, y, z, time, U, V, xi, yi, zi, ti, valueU, valueV, interp_method, gridindexingtype); CHECKSTATUS(status);
-  if (interp_method == BGRID_VELOCITY)
-    interp_method = BGRID_W_VELOCITY;
-  status = temporal_interpolation(x, y, z, time, W, xi, yi, zi, ti, valueW, interp_method, gridindexingtype); CHECKSTATUS(status);
+  status = temporal_interpolationUV(x, y, z, time, U, V, xi, yi, zi, ti, valueU, valueV, interp_methodU, interp_methodV, gridindexingtype); CHECKSTATUS(status);
+  if (interp_methodW == BGRID_VELOCITY)
+    interp_methodW = BGRID_W_VELOCITY;
+  status = temporal_interpolation(x, y, z, time, W, xi, yi, zi, ti, valueW, interp_methodW, gridindexingtype); CHECKSTATUS(status);
   return SUCCESS;
 }
 
-- 
2.43.0

