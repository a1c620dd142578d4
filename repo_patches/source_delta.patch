From 70cce57e245e38e6bc845d6fabd1207c0305a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 01/34] fix: honour the result index (it was always reset to 1)

---
 src/mcsas3/mc_hdf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 19db19a..790c0a4 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -24,9 +24,6 @@ class ResultIndex(object):
         ],
     )
 
-    def __attrs_post_init__(self, resultIndex: int = 1):
-        self.resultIndex = resultIndex
-
     @property
     def nxsEntryPoint(self):
         return PurePosixPath(f"/analyses/MCResult{self.resultIndex}")
-- 
2.43.0


From e53decb6d1b7fa7a6c52f7f37296b9a09a2dbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 02/34] fix: combined command passes its arguments on as
 dictionaries, not as lists

---
 src/mcsas3/__main__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/mcsas3/__main__.py b/src/mcsas3/__main__.py
index 3ff3841..cd1a526 100644
--- a/src/mcsas3/__main__.py
+++ b/src/mcsas3/__main__.py
@@ -114,25 +114,23 @@ if __name__ == "__main__":
 
     adict = vars(args)
     # split arguments into two dictionaries, one for the optimizer and one for the histogrammer
-    adict_optimize = [
-        {
-            k: v
-            for k, v in adict.items()
-            if k
-            in [
-                "dataFile",
-                "resultFile",
-                "readConfigFile",
-                "runConfigFile",
-                "resultIndex",
-                "deleteIfExists",
-                "nThreads",
-            ]
-        }
-    ]
-    adict_histogram = [
-        {k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]}
-    ]
+    adict_optimize = {
+        k: v
+        for k, v in adict.items()
+        if k
+        in [
+            "dataFile",
+            "resultFile",
+            "readConfigFile",
+            "runConfigFile",
+            "resultIndex",
+            "deleteIfExists",
+            "nThreads",
+        ]
+    }
+    adict_histogram = {
+        k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]
+    }
     try:
         McSAS3_cli_optimize(**adict_optimize)
         McSAS3_cli_histogram(**adict_histogram)
-- 
2.43.0


From 8fb7a498c016f376ee41a7559ee6b318f8d85564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 03/34] fix: acceptance trace records the goodness of fit
 reached, not the one before

---
 src/mcsas3/mc_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 1907d81..016eada 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -204,10 +204,10 @@ class McCore:
         newGof = self.reEvaluate()  # 2 ms
         # if this is an improvement:
         if newGof < self._opt.gof:
-            # accept the move:
-            self.accept()  # 500 µs
-            # and store the new GOF as current:
+            # store the new GOF as current:
             self._opt.gof = newGof
+            # and accept the move, which adds this GOF to the acceptance trace:
+            self.accept()  # 500 µs
         # increment step counter in either case:
         self._opt.step += 1
 
-- 
2.43.0


From c4f1585be98df322f214a6ff240816c4de4750a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 04/34] fix: keep the acceptance trace of a loaded optimization
 intact

---
 src/mcsas3/mc_core.py | 5 +++--
 src/mcsas3/mc_opt.py  | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 016eada..6074bd1 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -96,8 +96,9 @@ class McCore:
         # store the initial background and scaling optimization as new initial guess:
         self._opt.x0 = self._opt.testX0
 
-        self._opt.acceptedSteps += [0]
-        self._opt.acceptedGofs += [self._opt.gof]
+        if loadFromFile is None:  # a loaded optimization continues its stored trace
+            self._opt.acceptedSteps += [0]
+            self._opt.acceptedGofs += [self._opt.gof]
         return  # one of the following tests always fails for test data, what's the purpose?
         # the hope was to test that the previously stored optimization result still
         # gives the same answer for GOF and scaling/background
diff --git a/src/mcsas3/mc_opt.py b/src/mcsas3/mc_opt.py
index 31c3cdd..729728c 100644
--- a/src/mcsas3/mc_opt.py
+++ b/src/mcsas3/mc_opt.py
@@ -112,3 +112,6 @@ class McOpt:
             path = self.resultIndex.nxsEntryPoint / "optimization" / f"repetition{repetition}"
         for key, value in loadKVPairs(filename, path, self.loadKeys):
             setattr(self, key, value)
+        # these are appended to when continuing the optimization:
+        self.acceptedSteps = list(self.acceptedSteps)
+        self.acceptedGofs = list(self.acceptedGofs)
-- 
2.43.0


From 52df99fbf71a631dcd9bc5324b84140712d65cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 05/34] fix: restored 1D data keeps its Q offset, data range
 and csv arguments

---
 src/mcsas3/mc_data.py    | 1 +
 src/mcsas3/mc_data_1d.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 1be7217..d8f375a 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -83,6 +83,7 @@ class McData:
             "dataRange": None,  # not sure what this is.. array?
             "csvargs": "dict",
             "loader": "str",
+            "qNudge": None,
             "omitQRanges": list,  # not sure if this works?
         }
     )
diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index b0b32e9..8b1cff3 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -24,7 +24,7 @@ class McData1D(McData):
         resultIndex: int = 1,
         **kwargs: dict,
     ) -> None:
-        super().__init__(loadFromFile=loadFromFile, resultIndex=resultIndex, **kwargs)
+        super().__init__(resultIndex=resultIndex, **kwargs)
         self.csvargs = {
             "sep": r"\s+",
             "header": None,
@@ -32,6 +32,8 @@ class McData1D(McData):
         }  # default for 1D, overwritten in subclass
         self.dataRange = [-np.inf, np.inf]  # min-max for data range to fit
         self.qNudge = 0  # nudge in case of misaligned centers. Applied to measData
+        if loadFromFile is not None:  # after the defaults, which must not replace loaded values
+            self.load(loadFromFile)
         self.processKwargs(**kwargs)  # redo kwargs in case the reset values have been updated
 
         # load from dataframe if provided
-- 
2.43.0


From 523c9632acab8e049997c637b5a038d085242ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 06/34] fix: storing a value replaces the previous one,
 whatever its type, shape or keys

---
 src/mcsas3/mc_hdf.py   | 27 ++++++++++++++-------------
 src/mcsas3/mc_model.py |  4 ++--
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 790c0a4..db5b7d6 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -104,6 +104,13 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
     assert path is not None, "HDF5 path cannot be empty"
 
     if isinstance(value, (dict, pandas.DataFrame)):
+        with h5py.File(filename, "a") as h5f:
+            # replace what was stored here before, instead of mixing both
+            if isinstance(h5f.get(str(path)), h5py.Dataset):
+                del h5f[str(path)]
+            h5g = h5f.require_group(str(path))
+            for key in set(h5g.keys()) - {str(key) for key in value.keys()}:
+                del h5g[key]
         storeKVPairs(filename, path, value.items())
         return
 
@@ -123,18 +130,12 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
 
-            try:
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-            except TypeError:
-                del h5g[key]
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-
-        elif value is not None:
-            dset = h5g.get(key, None)
-            if dset is None:
-                dset = h5g.create_dataset(key, data=value)
-            else:
-                dset[()] = value
-
+        if value is not None:
+            # unnamed at first: if the value can't be stored, the previous one stays
+            dset = h5g.create_dataset(None, data=value)
+        if key in h5g:
+            del h5g[key]
+        if dset is not None:
+            h5g[key] = dset
         if unit is not None:
             dset.attrs["unit"] = str(unit)
diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index db806c2..8b048f9 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -482,8 +482,8 @@ class McModel:
         assert filename is not None
 
         path = self.resultIndex.nxsEntryPoint / "model"
-        storeKVPairs(filename, path / "fitParameterLimits", self.fitParameterLimits.items())
-        storeKVPairs(filename, path / "staticParameters", self.staticParameters.items())
+        storeKV(filename, path / "fitParameterLimits", self.fitParameterLimits)
+        storeKV(filename, path / "staticParameters", self.staticParameters)
         storeKV(filename, path=path / "modelName", value=str(self.modelName))  # store modelName
 
         psDict = self.parameterSet.copy().to_dict(orient="split")
-- 
2.43.0


From 988f0f7f66e9bb069f5d452eb5df488deab7a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 07/34] fix: a run stores everything under one result index,
 the one of the hat or of the run

---
 src/mcsas3/mc_hat.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 864be0b..99e1505 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -93,9 +93,11 @@ class McHat:
                     np.pi / np.min(measData["Q"]),
                 ]
 
-    def run(self, measData: dict, filename: Path, resultIndex: int = 1) -> None:
+    def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
-        This probably needs to be taken out of core, and into a new parent"""
+        This probably needs to be taken out of core, and into a new parent
+
+        A resultIndex given here replaces the one set at construction, for this run."""
 
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
@@ -135,10 +137,12 @@ class McHat:
         filename: Path,
         repetition: int = 0,
         bufferStdIO: bool = False,
-        resultIndex: int = 1,
+        resultIndex: Optional[int] = None,
     ) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
+        if resultIndex is None:
+            resultIndex = self.resultIndex.resultIndex
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
@@ -148,6 +152,7 @@ class McHat:
             self._model = McModel(**self._modelArgs)
 
         self._opt.repetition = repetition
+        self._opt.resultIndex = self._model.resultIndex = ResultIndex(resultIndex)
         self._model.resetParameterSet()
         mc = McCore(measData, model=self._model, opt=self._opt, resultIndex=resultIndex)
         mc.optimize()
@@ -165,7 +170,9 @@ class McHat:
             STORE_LOCK.acquire()
         try:
             mc.store(filename=filename)
-            self.store(filename=filename)
+            self.store(
+                filename=filename, path=ResultIndex(resultIndex).nxsEntryPoint / "optimization"
+            )
         except Exception as e:
             print(f"{mc}: {e}: {str(e)}\n")
         finally:
-- 
2.43.0


From 72d3ab5e52b85992ef5fc8395ae3d8d3810a1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 08/34] fix: automatic fit limits are resolved for each run,
 not kept in the configuration

---
 src/mcsas3/mc_hat.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 99e1505..84130b3 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -77,7 +77,10 @@ class McHat:
             setattr(self, key, value)
         assert self.nRep > 0, "Must optimize for at least one repetition"
 
-    def fillFitParameterLimits(self, measData: dict) -> None:
+    def fillFitParameterLimits(self, measData: dict) -> dict:
+        """returns the fit parameter limits for this data, with the automatic ones filled in.
+        The configured limits are not modified, they may be used for other data as well."""
+        limits = dict(self._modelArgs["fitParameterLimits"])
         for key, val in self._modelArgs["fitParameterLimits"].items():
             if isinstance(val, str):
                 assert val == "auto", (
@@ -88,10 +91,11 @@ class McHat:
                 assert (
                     np.min(measData["Q"]) > 0
                 ), "for auto-scaling of measurement limits, the smallest Q value cannot be zero"
-                self._modelArgs["fitParameterLimits"][key] = [
+                limits[key] = [
                     np.pi / np.max(measData["Q"]),
                     np.pi / np.min(measData["Q"]),
                 ]
+        return limits
 
     def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
@@ -99,9 +103,6 @@ class McHat:
 
         A resultIndex given here replaces the one set at construction, for this run."""
 
-        # ensure the fit parameter limits are filled in based on the data limits if auto
-        self.fillFitParameterLimits(measData)
-
         if (self.nCores == 1) or (self.nRep == 1):
             for rep in range(self.nRep):
                 self.runOnce(measData, filename, rep, resultIndex=resultIndex)
@@ -148,8 +149,11 @@ class McHat:
             sys.stderr = sys.stdout = StringIO()
         if self._opt is None:
             self._opt = McOpt(**self._optArgs)
+        # ensure the fit parameter limits are filled in based on the data limits if auto
+        limits = self.fillFitParameterLimits(measData)
         if self._model is None:
-            self._model = McModel(**self._modelArgs)
+            self._model = McModel(**dict(self._modelArgs, fitParameterLimits=limits))
+        self._model.fitParameterLimits = limits
 
         self._opt.repetition = repetition
         self._opt.resultIndex = self._model.resultIndex = ResultIndex(resultIndex)
-- 
2.43.0


From 44cbbb60d8046fbf0d03c613c76c56666d8174a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 09/34] fix: repetitions no longer share random numbers, model
 or optimization state

---
 src/mcsas3/mc_hat.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 84130b3..01aed99 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -147,26 +147,27 @@ class McHat:
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
-        if self._opt is None:
-            self._opt = McOpt(**self._optArgs)
+        # every repetition gets its own instances, so that it does not depend on what ran before it
+        opt = McOpt(**self._optArgs)
         # ensure the fit parameter limits are filled in based on the data limits if auto
         limits = self.fillFitParameterLimits(measData)
-        if self._model is None:
-            self._model = McModel(**dict(self._modelArgs, fitParameterLimits=limits))
-        self._model.fitParameterLimits = limits
-
-        self._opt.repetition = repetition
-        self._opt.resultIndex = self._model.resultIndex = ResultIndex(resultIndex)
-        self._model.resetParameterSet()
-        mc = McCore(measData, model=self._model, opt=self._opt, resultIndex=resultIndex)
+        # with a fixed seed, repetitions still need to be different from each other
+        seed = self._modelArgs.get("seed", McModel.seed)
+        if seed is not None:
+            seed = seed + repetition
+        model = McModel(**dict(self._modelArgs, fitParameterLimits=limits, seed=seed))
+
+        opt.repetition = repetition
+        opt.resultIndex = model.resultIndex = ResultIndex(resultIndex)
+        mc = McCore(measData, model=model, opt=opt, resultIndex=resultIndex)
         mc.optimize()
         try:
-            self._model.kernel.release()
+            model.kernel.release()
         except AttributeError:
             pass  # can happen with a simulation model
         except Exception as e:
             print(f"{mc}: {e}: {str(e)}\n")
-        print("Final chiSqr: {}, N accepted: {}".format(self._opt.gof, self._opt.accepted))
+        print("Final chiSqr: {}, N accepted: {}".format(opt.gof, opt.accepted))
 
         # storing the results
         if STORE_LOCK is not None:
-- 
2.43.0


From 36a70e009b1de9556b33c151b89078c84a4a74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 10/34] fix: never use more processes than there are cores

---
 src/mcsas3/mc_hat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 01aed99..dd52a90 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -116,14 +116,16 @@ class McHat:
                 self.nCores = np.minimum(multiprocessing.cpu_count(), self.nRep)
             start = time.time()
             lock = multiprocessing.Lock()
-            pool = multiprocessing.Pool(self.nCores, initializer=initStoreLock, initargs=(lock,))
+            # never use more processes than there are cores
+            nProcesses = min(self.nCores, multiprocessing.cpu_count())
+            pool = multiprocessing.Pool(nProcesses, initializer=initStoreLock, initargs=(lock,))
             runArgs = [(measData, filename, r, True, resultIndex) for r in range(self.nRep)]
             outputs = pool.starmap(self.runOnce, runArgs)
             pool.close()
             pool.join()
             print(
                 "McSAS analysis with {} repetitions took {:.1f}s with {} threads.".format(
-                    self.nRep, time.time() - start, min(self.nCores, self.nRep)
+                    self.nRep, time.time() - start, min(nProcesses, self.nRep)
                 )
             )
             # for args in runArgs:
-- 
2.43.0


From 6934b1763c339290aa3d6ba2a8f763f070c0cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 11/34] fix: analysis ignores repetitions which were not stored
 completely

---
 src/mcsas3/mc_analysis.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_analysis.py b/src/mcsas3/mc_analysis.py
index 28508fb..0069a18 100644
--- a/src/mcsas3/mc_analysis.py
+++ b/src/mcsas3/mc_analysis.py
@@ -12,6 +12,7 @@ from mcsas3.mc_hdf import ResultIndex, storeKVPairs
 
 from .mc_core import McCore
 from .mc_model_histogrammer import McModelHistogrammer
+from .mc_opt import McOpt
 
 
 class McAnalysis:
@@ -391,11 +392,20 @@ class McAnalysis:
 
     def getNRep(self, inputFile: Path) -> None:
         """Finds out which repetition indices are available in the results file,
-        skipping potential missing indices. Note: repetition must be int."""
+        skipping potential missing indices, and repetitions whose storing has not been completed.
+        Note: repetition must be int."""
         self._repetitionList = []  # reinitialize to zero
+        root = self.resultIndex.nxsEntryPoint
+        modelKeys = [f"parameterSet/{key}" for key in ("columns", "index", "data")]
+        modelKeys += ["volumes", "modelDType"]
         with h5py.File(inputFile, "r") as h5f:
-            for key in h5f[str(self.resultIndex.nxsEntryPoint / "model")].keys():
+            for key in h5f[str(root / "model")].keys():
                 if "repetition" in key:
+                    required = [root / "model" / key / name for name in modelKeys]
+                    required += [root / "optimization" / key / name for name in McOpt.loadKeys]
+                    if not all(str(path) in h5f for path in required):
+                        print(f"Ignoring {key}: it has not been stored completely.")
+                        continue
                     self._repetitionList.append(int(key.strip("repetition")))
         print(f"{len(self._repetitionList)} repetitions found in McSAS file {inputFile}")
 
-- 
2.43.0


From b054ca96cd468694cda1dfe718821d75282b05f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 12/34] fix: a replaced repetition is never left as a mix of
 old and new

---
 src/mcsas3/mc_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 6074bd1..393e5f6 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -6,7 +6,7 @@ from typing import Optional
 import numpy as np
 
 # import scipy.optimize
-from mcsas3.mc_hdf import ResultIndex
+from mcsas3.mc_hdf import ResultIndex, storeKV
 
 from .mc_model import McModel
 from .mc_opt import McOpt
@@ -241,6 +241,10 @@ class McCore:
         ready for histogramming"""
 
         self._outputFilename = filename
+        # when replacing an earlier result of this repetition, never leave a mix of both behind
+        for group in "model", "optimization":
+            path = self.resultIndex.nxsEntryPoint / group / f"repetition{self._opt.repetition}"
+            storeKV(filename, path, None)
         self._model.store(filename=self._outputFilename, repetition=self._opt.repetition)
         self._opt.store(
             filename=self._outputFilename,
-- 
2.43.0


From 4dc22bcb13f43544206104e30493d26f4dd14784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 13/34] fix: never delete the data file when the result file is
 another path to it

---
 src/mcsas3/cli_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 430e413..6522dae 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -41,7 +41,7 @@ class McSAS3_cli_optimize(object):
         if self.resultFile.is_file():
             # only remove result file if it is not the main file!
             # This way, you can add McSAS to an existing nexus file
-            if (self.resultFile != self.dataFile) & (self.deleteIfExists):
+            if (not self.resultFile.samefile(self.dataFile)) & (self.deleteIfExists):
                 self.resultFile.unlink()
         # read the configuration file
         with open(self.readConfigFile, "r") as f:
-- 
2.43.0


From 65c1dc2bd689310791f1842354516452d6282817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 14/34] fix: loading the simulation model leaves the caller's
 static parameters alone

---
 src/mcsas3/mc_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 8b048f9..2867af4 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -536,7 +536,8 @@ class McModel:
     def loadSimModel(self) -> None:
         if "simDataQ1" not in self.staticParameters.keys():
             # if it was None when written, it might not exist when loading
-            self.staticParameters.update({"simDataQ1": None})
+            # (in a copy, the dict may belong to the caller)
+            self.staticParameters = dict(self.staticParameters, simDataQ1=None)
 
         self.func = McSimPseudoModel(
             extrapY0=self.staticParameters["extrapY0"],
-- 
2.43.0


From bf5b41672e02b9f5dcf9f4ddebab032c7ea51b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 15/34] fix: an explicitly linked data set is the one stored
 and restored

---
 src/mcsas3/mc_data_1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 8b1cff3..6d56703 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -57,6 +57,7 @@ class McData1D(McData):
             f"measDataLink value: {measDataLink} not valid. Must be one of 'rawData', 'clippedData'"
             " or 'binnedData'"
         )
+        self.measDataLink = measDataLink  # the choice in use is the one to be stored
         measDataObj = getattr(self, measDataLink)
         self.measData = dict(
             Q=[measDataObj.Q.values + self.qNudge],
-- 
2.43.0


From 1eb3cb8b7cc13a8192aea6036b230eb7eb7ce503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 16/34] fix: omitting a Q range never drops points outside of
 it

---
 src/mcsas3/mc_data_1d.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 6d56703..36bfaba 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -116,11 +116,10 @@ class McData1D(McData):
             assert (
                 len(omitQRange) == 2
             ), "each omitQRange must contain two elements: a minimum and maximum value"
-            # we drop the matches:
-            self.clippedData.drop(
-                self.clippedData.query(f"{omitQRange[0]} <= Q < {omitQRange[1]}").index,
-                inplace=True,
-            )
+            # we drop the matches (by value, row labels may not be unique):
+            self.clippedData = self.clippedData.query(
+                f"not ({omitQRange[0]} <= Q < {omitQRange[1]})"
+            ).copy()
 
     def reBin(
         self, nbins: Optional[int] = None, IEmin: Optional[float] = None, QEMin: float = 0.01
-- 
2.43.0


From 83194f0c96522deaf6c43ee132018c24872882fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 17/34] fix: data frames with text columns can be stored

---
 src/mcsas3/mc_hdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index db5b7d6..e152347 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -126,7 +126,9 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             value = value.timestamp()
         if isinstance(value, (list, tuple)):
             value = np.array(value)
-        if isinstance(value, (np.ndarray, pandas.Series)):
+        if isinstance(value, pandas.Series):
+            value = value.to_numpy()
+        if isinstance(value, np.ndarray):
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
 
-- 
2.43.0


From 0640cca228e8627431b3d9b6aca90335b824ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 18/34] fix: dictionaries with empty arrays or of more than two
 levels can be loaded

---
 src/mcsas3/mc_hdf.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index e152347..bf74291 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -38,6 +38,14 @@ def loadKVPairs(filename: Path, path: PurePosixPath, keys: Iterable) -> Iterable
             yield key, h5f[str(path / key)][()]
 
 
+def loadGroup(group: h5py.Group) -> dict:
+    """Load a group and the groups in there, at any depth, as nested dictionaries"""
+    return {
+        key: loadGroup(value) if isinstance(value, h5py.Group) else value[()]
+        for key, value in group.items()
+    }
+
+
 def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg=False):
     """Load a single key-value pair from HDF5 file"""
     path = str(path)
@@ -63,13 +71,10 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
         with h5py.File(filename, "r") as h5f:
             for key, keyValue in h5f[path].items():
                 if isinstance(keyValue, h5py.Group):
-                    subDict = {}
-                    for gkey, gValue in keyValue.items():
-                        subDict.update({gkey: gValue[()]})
-                    value.update({key: subDict})
+                    value.update({key: loadGroup(keyValue)})
                 else:
                     value.update({key: keyValue[()]})
-                    if isinstance(keyValue[()], np.ndarray):
+                    if isinstance(keyValue[()], np.ndarray) and keyValue.size > 0:
                         if isinstance(keyValue[()][0], bytes):
                             value.update({key: np.array([i.decode() for i in keyValue[()]])})
 
-- 
2.43.0


From 1f6d437cf77fad9c55fce94a3e78910151db7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 19/34] fix: rebinning never loses the first or a single data
 point

---
 src/mcsas3/mc_data_1d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 36bfaba..760bf0e 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -155,8 +155,12 @@ class McData1D(McData):
             }
         )
 
+        # rounding must not exclude the first datapoint:
+        binEdges[0] = qMin
         # add a little to the end to ensure the last datapoint is captured:
-        binEdges[-1] = binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2])
+        binEdges[-1] = max(
+            binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2]), np.nextafter(qMax, np.inf)
+        )
 
         # now do the binning per bin.
         for binN in range(len(binEdges) - 1):
-- 
2.43.0


From 10d24a1510c84f6525b9222f9da99b4e934b8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 20/34] fix: texts in a stored dictionary are loaded as text,
 restored csv arguments are usable

---
 src/mcsas3/mc_hdf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index bf74291..098e792 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -41,11 +41,20 @@ def loadKVPairs(filename: Path, path: PurePosixPath, keys: Iterable) -> Iterable
 def loadGroup(group: h5py.Group) -> dict:
     """Load a group and the groups in there, at any depth, as nested dictionaries"""
     return {
-        key: loadGroup(value) if isinstance(value, h5py.Group) else value[()]
+        key: loadGroup(value) if isinstance(value, h5py.Group) else loadValue(value)
         for key, value in group.items()
     }
 
 
+def loadValue(dset: h5py.Dataset):
+    """Load a single value, a text which was stored as such is decoded"""
+    value = dset[()]
+    stringInfo = h5py.check_string_dtype(dset.dtype)
+    if isinstance(value, bytes) and stringInfo is not None and stringInfo.length is None:
+        value = value.decode()
+    return value
+
+
 def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg=False):
     """Load a single key-value pair from HDF5 file"""
     path = str(path)
@@ -73,7 +82,7 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
                 if isinstance(keyValue, h5py.Group):
                     value.update({key: loadGroup(keyValue)})
                 else:
-                    value.update({key: keyValue[()]})
+                    value.update({key: loadValue(keyValue)})
                     if isinstance(keyValue[()], np.ndarray) and keyValue.size > 0:
                         if isinstance(keyValue[()][0], bytes):
                             value.update({key: np.array([i.decode() for i in keyValue[()]])})
-- 
2.43.0


From a84b66e6aea396e2db3b09b74fad229ae2f79430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 21/34] fix: restored data keeps the explicit paths of its HDF5
 source

---
 src/mcsas3/mc_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index d8f375a..5e77043 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -81,6 +81,7 @@ class McData:
             "IEmin": float,
             "binning": "str",
             "dataRange": None,  # not sure what this is.. array?
+            "pathDict": "dict",
             "csvargs": "dict",
             "loader": "str",
             "qNudge": None,
-- 
2.43.0


From 6801f63024ca11ac01ca28c4388758fc2afac70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 22/34] fix: only 2D pixels within the limits and with finite
 values are used

---
 src/mcsas3/mc_data_2d.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index c1f4842..b70788e 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -121,8 +121,14 @@ class McData2D(McData):
         self.clippedData["Q1Crop2D"] = Q1[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
 
         self.clippedData["kansas"] = self.clippedData["I2D"].shape
-        # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
-        bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
+        # remove non-finite intensities and zero-uncertainty datapoints as well (add to mask), and
+        # what is within the crop envelope, but not within the limits:
+        bArr = (
+            np.isfinite(self.clippedData["I2D"])
+            & np.isfinite(self.clippedData["ISigma2D"])
+            & (self.clippedData["ISigma2D"] != 0)
+            & withinLimits[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
+        )
         self.clippedData["invMask"] = bArr * np.invert(self.clippedData["mask2D"]).astype(bool)
 
         self.clippedData["I"] = (self.clippedData["I2D"][self.clippedData["invMask"]]).flatten()
-- 
2.43.0


From fc66805ea6bec1a1315ac9c2276e210d7e460267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 23/34] fix: the minimum relative uncertainty applies to
 negative intensities as well

---
 src/mcsas3/mc_data_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 760bf0e..1980139 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -186,7 +186,7 @@ class McData1D(McData):
                 binDat.loc[binN, "ISEM"] = float(dfRange.ISigma.iloc[0])
                 binDat.loc[binN, "IError"] = float(dfRange.ISigma.iloc[0])
                 binDat.loc[binN, "ISigma"] = np.max(
-                    [binDat.loc[binN, "ISEM"], float(dfRange.I.iloc[0]) * IEmin]
+                    [binDat.loc[binN, "ISEM"], abs(float(dfRange.I.iloc[0])) * IEmin]
                 )
 
                 if "QSigma" in dfRange.keys():
@@ -217,7 +217,7 @@ class McData1D(McData):
                     [
                         binDat.loc[binN, "ISEM"],
                         binDat.loc[binN, "IError"],
-                        binDat.loc[binN, "I"] * IEmin,
+                        abs(binDat.loc[binN, "I"]) * IEmin,
                     ]
                 )
 
-- 
2.43.0


From 0e8b05d95a6b09639dffa3ebbc60b42ee2d53e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 24/34] fix: data given as whole numbers, such as counts, is
 accepted

---
 src/mcsas3/mc_data_1d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 1980139..e19fb07 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -84,6 +84,9 @@ class McData1D(McData):
         assert all(
             [key in df.keys() for key in ["Q", "I", "ISigma"]]
         ), "from_pandas requires the dataframe to contain 'Q', 'I', and 'ISigma'"
+        # numbers may come without fraction, such as counts:
+        counts = [key for key in ["Q", "I", "ISigma"] if df[key].dtype.kind in "iu"]
+        df = df.astype({key: float for key in counts})
         assert all(
             [df[key].dtype.kind in "f" for key in ["Q", "I", "ISigma"]]
         ), "data could not be read correctly. If csv, did you supply the right csvargs?"
-- 
2.43.0


From e82d177e7ca17b2a56dcfa0ca47bab47e2d4efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 25/34] fix: the file type found for one file is not applied to
 the next one read by the same object

---
 src/mcsas3/mc_data.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 5e77043..cfcd111 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -14,6 +14,12 @@ from mcsas3.mc_hdf import ResultIndex, loadKV, storeKVPairs
 # todo use attrs to @define a McData dataclass
 
 
+def _loaderSet(instance, attribute, value):
+    """a loader set by the user applies to any file, unlike one determined by the file name"""
+    instance._loaderFound = False
+    return value
+
+
 @attrs.define
 class McData:
     """
@@ -29,8 +35,11 @@ class McData:
         default=None, validator=attrs.validators.optional(attrs.validators.instance_of(Path))
     )
     loader: Optional[str] = attrs.field(
-        default=None, validator=attrs.validators.optional(attrs.validators.instance_of(str))
+        default=None,
+        validator=attrs.validators.optional(attrs.validators.instance_of(str)),
+        on_setattr=[attrs.setters.validate, _loaderSet],
     )
+    _loaderFound: bool = attrs.field(default=False)
     rawData: Optional[pandas.DataFrame] = attrs.field(default=None)
     rawData2D: Optional[pandas.DataFrame] = attrs.field(default=None)
     clippedData: Optional[pandas.DataFrame] = attrs.field(default=None)
@@ -137,27 +146,35 @@ class McData:
         assert False, "defined in 1D and 2D subclasses"
         pass
 
+    def useLoader(self, loader: str) -> None:
+        """sets the loader determined for the current file"""
+        if self.loader != loader:
+            self.loader = loader
+            self._loaderFound = True
+
     def from_file(self, filename: Optional[Path] = None) -> None:
         if filename is None:
             assert (
                 self.filename is not None
             ), "at least filename or self.filename must be set for loading from file"
         else:
+            if self._loaderFound and Path(filename) != self.filename:
+                self.loader = None  # it was determined for another file
             self.filename = Path(filename)
         self.filename = Path(self.filename)  # cast into pathlib if not already
         # make sure file exists
         assert self.filename.is_file(), f"input filename: {self.filename} must exist"
 
         if (self.filename.suffix == ".pdh") or (self.loader == "from_pdh"):
-            self.loader = "from_pdh"  # ensure this is set
+            self.useLoader("from_pdh")  # ensure this is set
             self.from_pdh(self.filename)
         elif (self.filename.suffix in [".csv", ".dat", ".txt"]) or (self.loader == "from_csv"):
-            self.loader = "from_csv"  # ensure this is set
+            self.useLoader("from_csv")  # ensure this is set
             self.from_csv(self.filename)
         elif (self.filename.suffix in [".h5", ".hdf5", ".nx", ".nxs"]) or (
             self.loader == "from_nexus"
         ):
-            self.loader = "from_nexus"
+            self.useLoader("from_nexus")
             self.from_nexus(self.filename)
             # load first, then find out if 1D or 2D
         else:
@@ -340,6 +357,7 @@ class McData:
             else:
                 if value is not None:
                     setattr(self, key, value)
+        self._loaderFound = True  # for the file it was used with
         # load rawData if availalbe in the result file
         try:
             self.rawData = pandas.DataFrame(
-- 
2.43.0


From 25186314a10aa4671f4faabb5429d158abf5207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 26/34] fix: a result file named like its plot is not replaced
 by the plot

---
 src/mcsas3/cli_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 6522dae..b5721af 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -98,6 +98,9 @@ class McSAS3_cli_histogram(object):
         mp = mc_plot.McPlot()
         # output file for plot:
         saveHistFile = self.resultFile.with_suffix(".pdf")
+        if saveHistFile.is_file() and saveHistFile.samefile(self.resultFile):
+            # the result file is not a previous plot
+            saveHistFile = self.resultFile.with_name(self.resultFile.name + ".plot.pdf")
         if saveHistFile.is_file():
             saveHistFile.unlink()
         mp.resultCard(mcres, saveHistFile=saveHistFile)
-- 
2.43.0


From 2d54939dabf19e6e4d271490540dbe19bad8be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 27/34] fix: bytes inside a stored dictionary are loaded as
 bytes, texts as texts

---
 src/mcsas3/mc_hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 098e792..d383cb9 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -50,7 +50,8 @@ def loadValue(dset: h5py.Dataset):
     """Load a single value, a text which was stored as such is decoded"""
     value = dset[()]
     stringInfo = h5py.check_string_dtype(dset.dtype)
-    if isinstance(value, bytes) and stringInfo is not None and stringInfo.length is None:
+    # h5py marks a text as utf-8, but bytes as ascii
+    if isinstance(value, bytes) and stringInfo is not None and stringInfo.encoding == "utf-8":
         value = value.decode()
     return value
 
-- 
2.43.0


From 27a78829ff0d856e9d07d19b345686da561050d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 28/34] fix: result card of ranges whose table rows are not
 numbered from zero

---
 src/mcsas3/mc_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_plot.py b/src/mcsas3/mc_plot.py
index 329df55..3aafba8 100644
--- a/src/mcsas3/mc_plot.py
+++ b/src/mcsas3/mc_plot.py
@@ -82,7 +82,7 @@ class McPlot:
 
         # histogram:
         for n, key in enumerate(mcres._averagedHistograms.keys()):
-            histDataFrame = mcres._averagedHistograms[n]
+            histDataFrame = mcres._averagedHistograms[key]
             plt.sca(ahs[1, 1 + n])
             plt.bar(
                 histDataFrame["xMean"],
@@ -91,14 +91,14 @@ class McPlot:
                 width=histDataFrame["xWidth"],
                 yerr=histDataFrame["yStd"],
             )
-            plt.xscale(mcres._histRanges.loc[n, "binScale"])
-            plt.xlabel(mcres._histRanges.loc[n, "parameter"])
+            plt.xscale(mcres._histRanges.loc[key, "binScale"])
+            plt.xlabel(mcres._histRanges.loc[key, "parameter"])
             # plt.xlim(30* FPFactor, 34* FPFactor)
             plt.ylabel("Vol. frac. \n (relative or absolute)")
 
             # get report, some string replacements to prevent errors of
             # "missing Glyph (9), which is the tab"
-            histReport = mcres.debugReport(n).split("\n", 1)[
+            histReport = mcres.debugReport(key).split("\n", 1)[
                 1
             ]  # .replace('      ', ' ').replace(' 	 ', ' ').replace('----------------','')
             plt.sca(ahs[0, 1 + n])  # top right
-- 
2.43.0


From 0d0b5fffa40fa5952a64d97d2419ab5301e68439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 29/34] fix: an analysis works on its own copy of the table of
 ranges

---
 src/mcsas3/mc_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_analysis.py b/src/mcsas3/mc_analysis.py
index 0069a18..ad88fd8 100644
--- a/src/mcsas3/mc_analysis.py
+++ b/src/mcsas3/mc_analysis.py
@@ -139,7 +139,8 @@ class McAnalysis:
         assert measData is not None, "measurement data must be provided for analysis"
 
         self._concatOpts = pandas.DataFrame(columns=self._optKeys)
-        self._histRanges = histRanges
+        # a copy, the ranges found here must not end up in other analyses using the same table
+        self._histRanges = histRanges.copy()
         self._measData = measData
         # make sure we store and read from the right place.
         self.resultIndex = ResultIndex(resultIndex)  # defines the HDF5 root path
-- 
2.43.0


From 90e6ce99c5dcfcb6b9be1c3e0099af3fe91aa7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 30/34] fix: result card of ranges with automatic bins

---
 src/mcsas3/mc_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_plot.py b/src/mcsas3/mc_plot.py
index 3aafba8..aa5cc00 100644
--- a/src/mcsas3/mc_plot.py
+++ b/src/mcsas3/mc_plot.py
@@ -91,7 +91,8 @@ class McPlot:
                 width=histDataFrame["xWidth"],
                 yerr=histDataFrame["yStd"],
             )
-            plt.xscale(mcres._histRanges.loc[key, "binScale"])
+            if mcres._histRanges.loc[key, "binScale"] == "log":  # automatic bins are linear
+                plt.xscale("log")
             plt.xlabel(mcres._histRanges.loc[key, "parameter"])
             # plt.xlim(30* FPFactor, 34* FPFactor)
             plt.ylabel("Vol. frac. \n (relative or absolute)")
-- 
2.43.0


From 4e66f31c909a79dd7748e9a4e1eb403127e57aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 31/34] fix: histograms over the full range of limits given in
 reverse

---
 src/mcsas3/mc_model_histogrammer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_model_histogrammer.py b/src/mcsas3/mc_model_histogrammer.py
index d2ff95b..c849170 100644
--- a/src/mcsas3/mc_model_histogrammer.py
+++ b/src/mcsas3/mc_model_histogrammer.py
@@ -114,8 +114,9 @@ class McModelHistogrammer:
             ), "nBin must be an integer > 0"
 
             if histRange.autoRange:
-                histRange["rangeMin"] = self._model.fitParameterLimits[histRange.parameter][0]
-                histRange["rangeMax"] = self._model.fitParameterLimits[histRange.parameter][1]
+                # the limits may be given in reverse, for drawing logarithmically
+                limits = self._model.fitParameterLimits[histRange.parameter]
+                histRange["rangeMin"], histRange["rangeMax"] = min(limits), max(limits)
             else:
                 histRange["rangeMin"] = histRange.presetRangeMin
                 histRange["rangeMax"] = histRange.presetRangeMax
-- 
2.43.0


From 509af55ed105ea50898f2e94b2d5041952e0ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 32/34] fix: a restored model keeps the choice of drawing
 logarithmically

---
 src/mcsas3/mc_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 2867af4..7e294c4 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -472,6 +472,8 @@ class McModel:
         ]  # what does this do, a no-op?
         self.volumes = loadKV(loadFromFile, path / "volumes")
         self.seed = loadKV(loadFromFile, path / "seed")
+        # not in files stored earlier
+        self.logRandom = loadKV(loadFromFile, path / "logRandom", datatype=bool, default=False)
         self.modelDType = loadKV(loadFromFile, path / "modelDType", datatype="str")
         self.nContrib = self.parameterSet.shape[0]
 
@@ -491,7 +493,12 @@ class McModel:
         storeKVPairs(
             filename,
             path / f"repetition{repetition}",
-            [("seed", self.seed), ("volumes", self.volumes), ("modelDType", self.modelDType)],
+            [
+                ("seed", self.seed),
+                ("logRandom", self.logRandom),
+                ("volumes", self.volumes),
+                ("modelDType", self.modelDType),
+            ],
         )
 
     # SasView SasModel helper functions:
-- 
2.43.0


From 72dc7bc5ff37645baaa0a64fcb35e798e21fbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:16 +0000
Subject: [PATCH 33/34] fix: reading a curve does not leave the image read
 before in use

---
 src/mcsas3/mc_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index cfcd111..5a76e82 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -306,6 +306,8 @@ class McData:
             del self.rawData["Q"]
             for key in self.rawData.keys():
                 self.rawData[key] = self.rawData[key].flatten()
+        else:
+            self.rawData2D = None  # an image read before is not this data
 
         self.rawData = pandas.DataFrame(data=self.rawData)
         self.prepare()
-- 
2.43.0


From ba50bd9517c4949e42f45106500ff1dfb0e62bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 34/34] fix: images with Qz as any of the three components can
 be read

---
 src/mcsas3/mc_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 5a76e82..4048228 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -299,8 +299,8 @@ class McData:
                 [self.rawData["Q"][i, :, :].any() for i in range(self.rawData["Q"].shape[0])]
             )
             self.rawData["Q"] = self.rawData["Q"][QxyIndices, :, :].squeeze()
-            self.rawData["Qx"] = self.rawData["Q"][QxyIndices[1], :, :].squeeze()
-            self.rawData["Qy"] = self.rawData["Q"][QxyIndices[0], :, :].squeeze()
+            self.rawData["Qx"] = self.rawData["Q"][1]
+            self.rawData["Qy"] = self.rawData["Q"][0]
             self.rawData2D = self.rawData.copy()  # intermediate storage of original data
             # but we also need to prepare a Pandas-compatible list-format data
             del self.rawData["Q"]
-- 
2.43.0

