From bdf4c31801c845415c931d8c62ad1babf848faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 01/29] fix: keep fractional time since last save when resuming
 from a checkpoint

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..86cb4ca 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -889,7 +889,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 8e21b866ee61daa1daea6721e0844d7c52fc1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 02/29] fix: keep variable attributes (units) in the output
 file when resuming

---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 86cb4ca..77a504b 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -973,15 +973,19 @@ class init_tools(abc.ABC):
                         dst.createGroup(name)
                         for vname, variable in src.groups[name].variables.items():
                             _mname = name + "/" + vname
-                            dst.createVariable(
+                            _var = dst.createVariable(
                                 _mname, variable.datatype, variable.dimensions
                             )
+                            _var.setncatts(variable.__dict__)
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
-                        dst.createVariable(name, variable.datatype, variable.dimensions)
+                        _var = dst.createVariable(
+                            name, variable.datatype, variable.dimensions
+                        )
+                        _var.setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
                 # set object attribute for model
-- 
2.43.0


From 01191920a74b4000e254aab9f39c0a4bbecdc57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 03/29] fix: replace the output file atomically when resuming
 from a checkpoint

---
 pyDeltaRCM/init_tools.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 77a504b..7b1ccec 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -941,11 +941,9 @@ class init_tools(abc.ABC):
                         "connections to the file before proceeding."
                     )
                 # if not open elsewhere, then proceed
-                # rename the old netCDF4 file
-                _msg = "Renaming old NetCDF4 output file"
-                self.log_info(_msg, verbosity=2)
-                _tmp_name = os.path.join(self.prefix, "old_pyDeltaRCM_output.nc")
-                os.rename(file_path, _tmp_name)
+                # copy into a temporary file, which replaces the old netCDF4
+                #    file only once complete (so a crash never loses data)
+                _tmp_name = os.path.join(self.prefix, "new_pyDeltaRCM_output.nc")
 
                 # write dims / attributes / variables to new netCDF file
                 _msg = "Creating NetCDF4 output file"
@@ -956,8 +954,8 @@ class init_tools(abc.ABC):
                     self.init_metadata_list()
 
                 # copy data from old netCDF4 into new one
-                with Dataset(_tmp_name) as src, Dataset(
-                    file_path, "w", format="NETCDF4"
+                with Dataset(file_path) as src, Dataset(
+                    _tmp_name, "w", format="NETCDF4"
                 ) as dst:
                     # copy attributes
                     for name in src.ncattrs():
@@ -988,14 +986,16 @@ class init_tools(abc.ABC):
                         _var.setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
+                # replace the old netCDF4 file with the complete copy
+                _msg = "Renaming old NetCDF4 output file"
+                self.log_info(_msg, verbosity=2)
+                os.replace(_tmp_name, file_path)
+
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
 
                 # synch netcdf file
                 self.output_netcdf.sync()
 
-                # delete old netCDF4 file
-                os.remove(_tmp_name)
-
         _msg = "Successfully loaded checkpoint."
         self.log_info(_msg, verbosity=1)
-- 
2.43.0


From d081470a693a4ce933566d588b76c625087270c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 04/29] fix: write checkpoints atomically so a crash keeps the
 previous one

---
 pyDeltaRCM/iteration_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 6e51731..9ec798c 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -461,6 +461,9 @@ class iteration_tools(abc.ABC):
         `checkpoint_dt` has not been explicitly defined.
         """
         ckp_file = os.path.join(self.prefix, "checkpoint.npz")
+        # write to a temporary file first, so that a crash during writing
+        #    never destroys the previous checkpoint
+        tmp_file = os.path.join(self.prefix, "checkpoint_tmp.npz")
 
         # get rng state
         rng_state_list = shared_tools.get_random_state()
@@ -469,7 +472,7 @@ class iteration_tools(abc.ABC):
         )  # convert to object before saving
 
         np.savez_compressed(
-            ckp_file,
+            tmp_file,
             # time and counter variables
             time=self.time,
             time_iter=self._time_iter,
@@ -491,3 +494,4 @@ class iteration_tools(abc.ABC):
             H_SL=self._H_SL,
             rng_state=rng_state,
         )
+        os.replace(tmp_file, ckp_file)
-- 
2.43.0


From 5125fd52aac0c29401909b4c58ceaf0f13753362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 05/29] fix: switching velocity figures off removes the
 velocity figure

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From e671236cee9ccbb7ffc84cce809ded65d0063594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 06/29] fix: bedload_fraction updates the sediment routers

---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From 4028be0a464cc9f5ca783df69b5f4c70c4f3981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 07/29] fix: subsidence rate is kept when a boundary condition
 changes the time step

---
 pyDeltaRCM/init_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 7b1ccec..c5b3afa 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -449,8 +449,13 @@ class init_tools(abc.ABC):
         # initial width of self.free_surf_walk_indices
         self.size_indices = int(self.stepmax / 2)
 
+        _old_dt = getattr(self, "_dt", None)
         self._dt = self.dVs / self.Qs0  # time step size
 
+        # keep the subsidence per timestep in step with the time step size
+        if hasattr(self, "sigma") and self._dt != _old_dt:
+            self.sigma = (self.sigma / _old_dt) * self._dt
+
         self.omega_flow_iter = 2.0 / self._itermax
 
         # number of times to repeat topo diffusion
-- 
2.43.0


From d791f03acb27bcaef49a11da21361f5537fd62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 08/29] fix: topographic diffusion follows a changed time step

---
 pyDeltaRCM/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 5369515..d98e52b 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1391,6 +1391,10 @@ class DeltaModel(
         if self.toggle_subsidence:
             self.sigma = (self.sigma / self._dt) * new_time_step
 
+        self.diffusion_multiplier = (
+            self.diffusion_multiplier / self._dt
+        ) * new_time_step
+
         self._dt = new_time_step
         self.init_sediment_routers()
 
-- 
2.43.0


From b61f9518c3c3e28d30a4f694574e66c3712a2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 09/29] fix: every job of a batch uses the random sequence of
 its own seed

---
 pyDeltaRCM/preprocessor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..a49bbdb 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -748,6 +748,10 @@ class _BaseJob(abc.ABC):
                 "the input YAML file or via input arguments."
             )
 
+        # the random generator is shared between all jobs of a process, and
+        #   is reseeded in forked processes, so remember the state of this job
+        self._rng_state = shared_tools.get_random_state()
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -789,6 +793,9 @@ class _SerialJob(_BaseJob):
         Iterate the timestep ``update`` routine for the specified number of
         iterations.
         """
+        # continue from the random state this job was initialized with
+        shared_tools.set_random_state(self._rng_state)
+
         # try to initialize and run the model
         try:
             # run the simulation
@@ -878,6 +885,9 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
         try:
             # try to initialize and run the model
             try:
+                # continue from the random state this job was initialized with
+                shared_tools.set_random_state(self._rng_state)
+
                 # initialize the output files (defer_output=True above)
                 # unless resuming from checkpoint, then load the checkpoint
                 if self.deltamodel.resume_checkpoint:
-- 
2.43.0


From f5e052c50d6ce784d8194e0b0ab8d7bc01ee15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 10/29] fix: jobs configured by number of steps run exactly
 that many steps

---
 pyDeltaRCM/preprocessor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index a49bbdb..3dd92b4 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -724,6 +724,9 @@ class _BaseJob(abc.ABC):
             self._job_end_time = _curr_time + (
                 (config_dict["timesteps"] * self.deltamodel._dt)
             )
+            self._job_end_iter = (
+                self.deltamodel._time_iter + config_dict["timesteps"]
+            )
 
         elif "time" in config_dict.keys():
             # fill informational fields
@@ -752,6 +755,16 @@ class _BaseJob(abc.ABC):
         #   is reseeded in forked processes, so remember the state of this job
         self._rng_state = shared_tools.get_random_state()
 
+    def _is_unfinished(self) -> bool:
+        """Whether the job has not yet run for the configured duration.
+
+        Steps are counted where the duration is configured by number of steps,
+        because the accumulated time is subject to rounding.
+        """
+        if self._time_type == "timesteps":
+            return self.deltamodel._time_iter < self._job_end_iter
+        return self.deltamodel._time < self._job_end_time
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -799,7 +812,7 @@ class _SerialJob(_BaseJob):
         # try to initialize and run the model
         try:
             # run the simulation
-            while self.deltamodel._time < self._job_end_time:
+            while self._is_unfinished():
                 self.deltamodel.update()
 
         # if the model run fails
@@ -906,7 +919,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.output_checkpoint()
 
                 # run the simualtion
-                while self.deltamodel._time < self._job_end_time:
+                while self._is_unfinished():
                     self.deltamodel.update()
 
             # if the model run fails
-- 
2.43.0


From d93f0a2434503c64b92f9fc1a5049c34780d65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 11/29] fix: directly given duration overrides the one in the
 input file of a single job

---
 pyDeltaRCM/preprocessor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 3dd92b4..028582a 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -38,6 +38,7 @@ class BasePreprocessor(abc.ABC):
     def __init__(self) -> None:
         """Initialize the base preprocessor."""
         self._input_file = None  # initialize empty
+        self._cli_dict = {}  # settings given directly
 
         self._has_ensemble = False
         self._has_set = False
@@ -607,6 +608,10 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                # a single job uses the input file itself, which the
+                #   directly given settings take precedence over
+                if self.file_list[i] is self._input_file:
+                    job_config.update(self._cli_dict)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -648,6 +653,10 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                # a single job uses the input file itself, which the
+                #   directly given settings take precedence over
+                if self.file_list[i] is self._input_file:
+                    job_config.update(self._cli_dict)
 
                 p = _SerialJob(
                     i=i,
@@ -993,6 +1002,7 @@ class PreprocessorCLI(BasePreprocessor):
             yaml_dict = {}
 
         # combine the dicts into a single config
+        self._cli_dict = cli_dict
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
@@ -1160,6 +1170,7 @@ class Preprocessor(BasePreprocessor):
             self._input_file = input_file  # fill field
 
         # combine the dicts into a single config
+        self._cli_dict = cli_dict
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
-- 
2.43.0


From e79ff2d5dca275f5db180d144dce860fc7836df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 12/29] fix: job table of a set expansion matches its header

---
 pyDeltaRCM/preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 028582a..38cc63f 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -379,7 +379,9 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From 75d7aaf5407409c75fa5842ec767a89201992c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 13/29] fix: ensemble expansion leaves the matrix given by the
 user unmodified

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 38cc63f..e048bc3 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -303,6 +303,9 @@ class BasePreprocessor(abc.ABC):
                     "Invalid matrix specification, " 'was not evaluated to "dict".'
                 )
 
+            # do not modify the matrix of the user
+            _matrix = _matrix.copy()
+
             # check for invalid specs
             if "seed" in _matrix.keys():
                 raise ValueError(
-- 
2.43.0


From 985801d9bcf1777647a00f4d2fe350d1d0cc838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 14/29] fix: reject out_dir in a set and seeds in a set with an
 ensemble

---
 pyDeltaRCM/preprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index e048bc3..f3ea943 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -278,6 +278,13 @@ class BasePreprocessor(abc.ABC):
                     # make a copy of the ith
                     jth_new_set = ith_old_set.copy()
 
+                    # check for invalid specs
+                    if "seed" in jth_new_set.keys():
+                        raise ValueError(
+                            "Random seeds cannot be specified in the set, "
+                            'if an "ensemble" number is specified as well.'
+                        )
+
                     # make a new seed for jth set
                     jth_seed = np.random.randint((2**32) - 1, dtype="u8")
 
@@ -343,6 +350,8 @@ class BasePreprocessor(abc.ABC):
             for k in d.keys():  # check validity of keys, depth == 1
                 if ":" in k:
                     raise ValueError("Colon operator found in matrix expansion key.")
+            if "out_dir" in d.keys():
+                raise ValueError('You cannot specify "out_dir" as a set key.')
 
         # check that all sets have the same entries
         set0_set = set(_set[0].keys())
-- 
2.43.0


From df48663bb1d3247239e5bbbf94b8841fd7017af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 15/29] fix: written job configurations read back as exactly
 the settings of the job

---
 pyDeltaRCM/preprocessor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index f3ea943..91d96bb 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1,6 +1,7 @@
 import abc
 import argparse
 import itertools
+import json
 import multiprocessing
 import os
 import platform
@@ -1230,9 +1231,18 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         if varvalue is None:
             f.write(varname + ": " + "null" + "\n")
         else:
+            if isinstance(varvalue, str):
+                # quote text that would not be read back unchanged
+                loader = shared_tools.custom_yaml_loader()
+                try:
+                    unchanged = yaml.load(varvalue, Loader=loader) == varvalue
+                except yaml.YAMLError:
+                    unchanged = False
+                if not unchanged:
+                    varvalue = json.dumps(varvalue)
             f.write(varname + ": " + str(varvalue) + "\n")
 
-    f = open(_path, "a")
+    f = open(_path, "w")
     for k in _config.keys():
         _write_parameter_to_file(f, k, _config[k])
     f.close()
-- 
2.43.0


From e6f95f9c68aedd1db74c1a92d91a006736e82761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:49 +0000
Subject: [PATCH 16/29] fix: read messages of parallel jobs while waiting for
 them to avoid a deadlock

---
 pyDeltaRCM/preprocessor.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 91d96bb..f16a678 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -640,21 +640,30 @@ class BasePreprocessor(abc.ABC):
                 self._job_list.append(p)
                 p.start()
 
+            # read from the queue and report
+            def _report_queue():
+                while not q.empty():
+                    gotq = q.get()
+                    if gotq["code"] == 1:
+                        print("Job {job} ended in error:\n {msg}".format_map(gotq))
+                    else:
+                        print(
+                            "Job {job} returned code {code} "
+                            "for stage {stage}.".format_map(gotq)
+                        )
+
             # join processes to prevent ending the jobs before moving forward
+            #   NOTE: a process only ends once its messages have been read, if
+            #         they do not fit into the queue, so read while waiting
             for i in self._job_list:
-                i.join()
+                i.join(timeout=0.1)
+                while i.exitcode is None:
+                    _report_queue()
+                    i.join(timeout=0.1)
 
-            # read from the queue and report (asynchronous...buggy...)
+            # report the remaining messages (asynchronous...buggy...)
             time.sleep(1)
-            while not q.empty():
-                gotq = q.get()
-                if gotq["code"] == 1:
-                    print("Job {job} ended in error:\n {msg}".format_map(gotq))
-                else:
-                    print(
-                        "Job {job} returned code {code} "
-                        "for stage {stage}.".format_map(gotq)
-                    )
+            _report_queue()
 
         # if the parallel flag is False (default)
         elif _parallel_flag is False:
-- 
2.43.0


From e1cb20ed2e10868dd9a35f570409a2b2753f7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:49 +0000
Subject: [PATCH 17/29] fix: a job failing with any error is reported and
 finalized, and later jobs run

---
 pyDeltaRCM/preprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index f16a678..e90b3d0 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -849,7 +849,7 @@ class _SerialJob(_BaseJob):
                 self.deltamodel.update()
 
         # if the model run fails
-        except (RuntimeError, ValueError) as e:
+        except Exception as e:
             _msg = ", ".join(
                 [
                     "job: " + str(self.i),
@@ -871,7 +871,7 @@ class _SerialJob(_BaseJob):
             self.deltamodel.finalize()
 
         # if the model finalization fails
-        except (RuntimeError, ValueError) as e:
+        except Exception as e:
             _msg = ", ".join(
                 [
                     "job: " + str(self.i),
@@ -956,7 +956,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.update()
 
             # if the model run fails
-            except (RuntimeError, ValueError) as e:
+            except Exception as e:
                 self.queue.put({"job": self.i, "stage": 1, "code": 1, "msg": str(e)})
                 self.deltamodel.logger.error(str(e))
                 self.deltamodel.logger.exception(e)
@@ -970,7 +970,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                 self.deltamodel.finalize()
 
             # if the model finalization fails
-            except (RuntimeError, ValueError) as e:
+            except Exception as e:
                 self.queue.put({"job": self.i, "stage": 2, "code": 1, "msg": str(e)})
                 self.deltamodel.logger.error(str(e))
                 self.deltamodel.logger.exception(e)
-- 
2.43.0


From 3e5f41cdc8e087e78d8940f2cd8bbe3ed8e21273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:34 +0000
Subject: [PATCH 18/29] fix: relocation of a looped parcel never uses the
 position of another parcel

---
 pyDeltaRCM/water_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..73fafe6 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -974,6 +974,7 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px, py = px0, py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From 8e53de84d6fe0ca7f22e1713f8e936de427b0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:42 +0000
Subject: [PATCH 19/29] fix: accept explicit null for parameters documented to
 allow it

---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index c5b3afa..aa6d586 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -107,7 +107,9 @@ class init_tools(abc.ABC):
             if not type(v["type"]) is list:
                 default_dict[k]["type"] = [eval(v["type"])]
             else:
-                default_dict[k]["type"] = [eval(_v) for _v in v["type"]]
+                default_dict[k]["type"] = [
+                    eval(_v) if _v != "None" else type(None) for _v in v["type"]
+                ]
 
         # only access the user input file if provided.
         if self.input_file:
@@ -165,7 +167,9 @@ class init_tools(abc.ABC):
                 if not type(v["type"]) is list:
                     expected_type = [eval(v["type"])]
                 else:
-                    expected_type = [eval(_v) for _v in v["type"]]
+                    expected_type = [
+                        eval(_v) if _v != "None" else type(None) for _v in v["type"]
+                    ]
                 # evaluate against expected types
                 if type(user_dict[k]) in expected_type:
                     input_file_vars[k] = user_dict[k]
-- 
2.43.0


From ffca368115d2deceaa0cd7ac3742ac511c154fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:42 +0000
Subject: [PATCH 20/29] fix: an empty input file configures all defaults

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index aa6d586..845c46f 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -115,7 +115,7 @@ class init_tools(abc.ABC):
         if self.input_file:
             try:
                 user_file = open(self.input_file, mode="r")
-                user_dict = yaml.load(user_file, Loader=loader)
+                user_dict = yaml.load(user_file, Loader=loader) or dict()
                 user_file.close()
             except ValueError as e:
                 raise e
-- 
2.43.0


From 4b73043a80d8e19ecab32bf3ad1499125a962e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:25 +0000
Subject: [PATCH 21/29] fix: keep saving user-added variables and figures after
 resuming

---
 pyDeltaRCM/init_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 845c46f..7652b5d 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -919,6 +919,10 @@ class init_tools(abc.ABC):
         rng_state = tuple(checkpoint["rng_state"])
         shared_tools.set_random_state(rng_state)
 
+        # custom variables and figures are saved by the resumed run too
+        if not defer_output:
+            self.hook_init_output_file()
+
         # handle the case with a netcdf file
         if (self._save_any_grids or self._save_metadata) and not defer_output:
             # check if the file exists already
@@ -935,7 +939,6 @@ class init_tools(abc.ABC):
                 # create a new file
                 # reset output file counters
                 self._save_iter = int(0)
-                self.hook_init_output_file()
                 self.init_output_file()
             else:
                 # check if file is open in another process, if so throw error
-- 
2.43.0


From 69563a83f36b76bc8c329e3408ba96ac28bda328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:50 +0000
Subject: [PATCH 22/29] fix: allow itermax of zero, as documented, instead of
 dividing by it

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 7652b5d..0437d21 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -460,7 +460,7 @@ class init_tools(abc.ABC):
         if hasattr(self, "sigma") and self._dt != _old_dt:
             self.sigma = (self.sigma / _old_dt) * self._dt
 
-        self.omega_flow_iter = 2.0 / self._itermax
+        self.omega_flow_iter = 2.0 / max(1, self._itermax)
 
         # number of times to repeat topo diffusion
         self.N_crossdiff = int(round(self.dVs / self.V0))
-- 
2.43.0


From 2967d3814e3070e512b292cbc21733e6094f981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:00 +0000
Subject: [PATCH 23/29] fix: warn about unknown parameters also next to
 Preprocessor-only ones

---
 pyDeltaRCM/init_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 0437d21..a3c6b06 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -212,12 +212,13 @@ class init_tools(abc.ABC):
                         )
                     )
                 )
-            else:
+            any_unknown = [k for k in unused_user_keys if not (k in pp_only_kw)]
+            if len(any_unknown):
                 warnings.warn(
                     UserWarning(
                         "One or more inputs in yaml file or kwargs were unused by "
                         "the model during instantiation. "
-                        "The unused keys are: {0}".format(str(unused_user_keys))
+                        "The unused keys are: {0}".format(str(any_unknown))
                     )
                 )
 
-- 
2.43.0


From c62dd2c6554939ba5a9c1248f40c195e22a22a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:00 +0000
Subject: [PATCH 24/29] fix: a configured basin depth of zero is used as given

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index a3c6b06..58ca12f 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -490,7 +490,7 @@ class init_tools(abc.ABC):
         self.log_info(_msg, verbosity=1)
 
         # resolve any boundary conditions
-        self._hb = self.hb or self.h0  # basin depth
+        self._hb = self.h0 if self.hb is None else self.hb  # basin depth
 
         # ---- coordinates ----
         self.xc = np.arange(0, self.L) * self._dx
-- 
2.43.0


From b8221604f2fd2542d784910d5dc03aef753aa386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:06 +0000
Subject: [PATCH 25/29] fix: flooding of dry shore cells considers only the
 stage of wet neighbors

With a sea level below zero, dry neighbors (and the outside of the grid)
counted as having a stage of zero, so that dry cells below zero were flooded
up to zero even if no wet neighbor reached them.
---
 pyDeltaRCM/water_tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 73fafe6..51b99ea 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -543,15 +543,16 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
+            # pretends dry neighbor cells have an infinitely low stage
             #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
+            stage_nh = np.where(
+                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0,
+                stage_nhs[:, shore_ind[0][i], shore_ind[1][i]],
+                -np.inf,
             )
 
             if (stage_nh > eta_shore[i]).any():
-- 
2.43.0


From f7f350d78a8f45af4ae0dd08a33457eca9cac2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:06 +0000
Subject: [PATCH 26/29] fix: a step limit below four no longer overruns the
 parcel path record

---
 pyDeltaRCM/init_tools.py  | 2 +-
 pyDeltaRCM/water_tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 58ca12f..b4da213 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -452,7 +452,7 @@ class init_tools(abc.ABC):
             self.stepmax = int(self.stepmax)
 
         # initial width of self.free_surf_walk_indices
-        self.size_indices = int(self.stepmax / 2)
+        self.size_indices = max(1, int(self.stepmax / 2))
 
         _old_dt = getattr(self, "_dt", None)
         self._dt = self.dVs / self.Qs0  # time step size
diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 51b99ea..3da871d 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -357,7 +357,7 @@ class water_tools(abc.ABC):
             self.log_info(_msg, verbosity=2)
 
             indices_blank = np.zeros(
-                (int(self._Np_water), int(self.stepmax / 4)), dtype=int
+                (int(self._Np_water), max(1, int(self.stepmax / 4))), dtype=int
             )
 
             self.free_surf_walk_inds = np.hstack(
-- 
2.43.0


From 7c2b8c99f16e6f3ddb3a89a88e72fca71d8e0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:54 +0000
Subject: [PATCH 27/29] fix: sediment parcels in the first row never step out
 of the domain

---
 pyDeltaRCM/sed_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..fb6ade9 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -297,6 +297,10 @@ def _get_weight_at_cell_sediment(
         # disallow movement into walls
         weight[wall] = 0
 
+        # disallow movement upstream out of the domain
+        if ind[0] == 0:
+            weight[:3] = 0
+
     weight[ctr] = 0  # enforce
 
     # sanity check
-- 
2.43.0


From 0bee44acbbef0e4e8f67808ab9438c8b0d977d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:24 +0000
Subject: [PATCH 28/29] fix: do not write an extra checkpoint at the first step
 after resuming

---
 pyDeltaRCM/init_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index b4da213..8b19e2e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -900,6 +900,7 @@ class init_tools(abc.ABC):
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
         self._save_time_since_data = float(checkpoint["save_time_since_data"])
+        self._save_time_since_checkpoint = 0
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From c7801c36a4148cb00bcae4d1a3a0bf40eea73ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:48 +0000
Subject: [PATCH 29/29] fix: continue after the last record when the output
 file was created anew by an earlier resumption

---
 pyDeltaRCM/init_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 8b19e2e..fd68d76 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -1008,6 +1008,13 @@ class init_tools(abc.ABC):
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
 
+                # the file may hold fewer records than when the checkpoint was
+                #    written (e.g., if it was created anew by an earlier
+                #    resumption), so that the next record follows the last one
+                _times = self.output_netcdf.variables["time"][:]
+                _n_records = int(np.sum(_times <= np.float32(self._time)))
+                self._save_iter = min(self._save_iter, _n_records)
+
                 # synch netcdf file
                 self.output_netcdf.sync()
 
-- 
2.43.0

