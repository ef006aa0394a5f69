From 9c13aa6bb5e5ec2139bf7eb1445bd0b1f9fc5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 01/23] fix: initialise LogMOC running_scale so that a
 restarted run can continue

A LogMOC run restarted after iteration 1 read running_scale before it was
ever assigned and raised AttributeError.
---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..88c406d 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = 0.0
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
-- 
2.43.0


From 4b545cbe4b03310e5f2822b8aecc6e787a423738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 02/23] fix: record_times above max_iters divided by zero

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From 6cb305b94df607873a74d3baab85a69131f17365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 03/23] fix: problems without Neumann elements were reset to
 full density

With design_dirichlet=True and no Neumann boundary (heat conduction),
rho[None] = 1.0 indexed with newaxis and overwrote every density, ignoring
the move limit and ending the optimization.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..536ddac 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -738,7 +738,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1129,7 +1130,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From 7b3ecd0a1fb9461e0e0f34f9ade51375687b5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 04/23] fix: node-to-element lookup returned another mesh's
 elements

The lookup table was cached by id(mesh) only. After a mesh was released, a
new mesh at the same address was answered from the old mesh's table.
---
 scikit-topt/sktopt/mesh/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..85de8c7 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -1,4 +1,6 @@
 from collections import defaultdict
+import weakref
+
 import numpy as np
 from scipy.sparse import csr_matrix
 from numba import njit, prange
@@ -202,17 +204,21 @@ def get_elements_by_nodes(
     if not hasattr(get_elements_by_nodes, "_cache"):
         get_elements_by_nodes._cache = {}
 
+    # The id of a released mesh may be given to a new one, so an entry only
+    # counts while it still refers to this very object.
     mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
+    entry = get_elements_by_nodes._cache.get(mesh_id)
+    if entry is None or entry[0]() is not mesh:
         # Build: node index → set of element indices
         node_to_elements = defaultdict(set)
         # mesh.t.T: shape = (n_elements, nodes_per_element)
         for e, nodes in enumerate(mesh.t.T):
             for n in nodes:
                 node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
+        entry = (weakref.ref(mesh), node_to_elements)
+        get_elements_by_nodes._cache[mesh_id] = entry
 
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
+    node_to_elements = entry[1]
 
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
-- 
2.43.0


From 379b73ccb5ba2c2a7d8c4ef5ce3d3ba8e73f7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 05/23] fix: spatial filter gradient ignored radius changes

gradient() used the weights of the last forward() call: after
update_radius() it applied the old radius, and before any forward() it
raised AttributeError.
---
 scikit-topt/sktopt/filters/spacial.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/filters/spacial.py b/scikit-topt/sktopt/filters/spacial.py
index 3e9cb5a..4f445e0 100644
--- a/scikit-topt/sktopt/filters/spacial.py
+++ b/scikit-topt/sktopt/filters/spacial.py
@@ -132,10 +132,7 @@ class SpacialFilter(BaseFilter):
             element_centers=element_centers
         )
 
-    def forward(
-        self,
-        rho_element: np.ndarray
-    ) -> np.ndarray:
+    def _update_weights(self):
         kernel, support = make_kernel(
             kind="gaussian", r_min=self.radius
         )
@@ -147,6 +144,13 @@ class SpacialFilter(BaseFilter):
             volume_correction=False,
             design_mask=self.design_mask
         )
+        self._W_radius = self.radius
+
+    def forward(
+        self,
+        rho_element: np.ndarray
+    ) -> np.ndarray:
+        self._update_weights()
         rho_filtered = np.copy(rho_element)
         if self.design_mask is None:
             rho_filtered[:] = self.W @ rho_element
@@ -157,6 +161,8 @@ class SpacialFilter(BaseFilter):
         return rho_filtered
 
     def gradient(self, v: np.ndarray) -> np.ndarray:
+        if getattr(self, "_W_radius", None) != self.radius:
+            self._update_weights()
         if self.design_mask is None:
             return self.W.T @ v
         else:
-- 
2.43.0


From a26c5ba7458e562c8488ca338c97cb87a504d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 06/23] fix: overlapping OC runs left SCITOPT_SENSITIVITY_MODE
 set

Each call saved and restored the variable on its own, so of two runs that
overlap in different threads the last to end restored the other's value.
---
 scikit-topt/sktopt/core/optimizers/oc.py | 27 ++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..b7ec256 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -1,4 +1,5 @@
 import os
+import threading
 from contextlib import contextmanager
 from dataclasses import dataclass, field
 from typing import Literal
@@ -126,17 +127,31 @@ class OC_Optimizer(common_density.DensityMethod):
         if export:
             self.schedulers.export()
 
+    # The variable belongs to the process: of overlapping calls (nested or in
+    # several threads) the first one saves it and the last one restores it.
+    _mode_lock = threading.RLock()
+    _mode_depth = 0
+    _mode_previous: str | None = None
+
     @contextmanager
     def _scaled_sensitivity_mode(self):
-        previous = os.environ.get("SCITOPT_SENSITIVITY_MODE")
-        os.environ["SCITOPT_SENSITIVITY_MODE"] = "current"
+        cls = OC_Optimizer
+        with cls._mode_lock:
+            if cls._mode_depth == 0:
+                cls._mode_previous = os.environ.get("SCITOPT_SENSITIVITY_MODE")
+                os.environ["SCITOPT_SENSITIVITY_MODE"] = "current"
+            cls._mode_depth += 1
         try:
             yield
         finally:
-            if previous is None:
-                os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
-            else:
-                os.environ["SCITOPT_SENSITIVITY_MODE"] = previous
+            with cls._mode_lock:
+                cls._mode_depth -= 1
+                if cls._mode_depth == 0:
+                    if cls._mode_previous is None:
+                        os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
+                    else:
+                        os.environ["SCITOPT_SENSITIVITY_MODE"] = \
+                            cls._mode_previous
 
     def optimize(self):
         with self._scaled_sensitivity_mode():
-- 
2.43.0


From b0fd4e8089fcc97275c11fa082e5b29cd8191b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 07/23] fix: restart picked up files that are not checkpoints

find_latest_iter_file matched name prefixes, so 000123-rho.npz.bak or a
temporary file could be chosen, and iterations above 999999 were missed.
---
 scikit-topt/sktopt/core/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..db80a98 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -6,12 +6,12 @@ from sktopt import tools
 
 
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6})-rho\.npz")
+    pattern = re.compile(r"(\d{6,})-rho\.npz")
     max_iter = -1
     latest_file = None
 
     for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
+        match = pattern.fullmatch(fname)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From a8d30a924b2912a6000740119ed641a066588991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 08/23] fix: write checkpoints, histories and configuration
 atomically

A crash, power loss or full disk while writing left a truncated file under
the final name, which made the run impossible to restart.
---
 .../sktopt/core/optimizers/common_density.py  | 13 +++++---
 scikit-topt/sktopt/tools/fileio.py            | 31 +++++++++++++++++++
 scikit-topt/sktopt/tools/history.py           |  4 ++-
 3 files changed, 42 insertions(+), 6 deletions(-)
 create mode 100644 scikit-topt/sktopt/tools/fileio.py

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 536ddac..5d654eb 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -23,6 +23,7 @@ from sktopt.fea._petsc_compat import (
     petsc_options_for_solver,
 )
 from sktopt.fea.solver_elastic import LinearSolverConfig, normalize_linear_solver_config
+from sktopt.tools.fileio import atomic_write
 from sktopt.tools.logconf import mylogger
 logger = mylogger(__name__)
 import logging
@@ -320,7 +321,7 @@ class DensityMethodConfig():
         return cls(**data)
 
     def export(self, path: str):
-        with open(f"{path}/cfg.json", "w") as f:
+        with atomic_write(f"{path}/cfg.json", "w") as f:
             json.dump(asdict(self), f, indent=2)
 
     # def export(self, path: str):
@@ -1229,10 +1230,12 @@ class DensityMethod(DensityMethodBase):
                             image_path=cfg.image_path(iter_num, "energy"),
                             image_title=f"Iteration : {iter_num}"
                         )
-                    np.savez_compressed(
-                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz",
-                        rho_design_elements=rho[tsk.design_elements]
-                    )
+                    with atomic_write(
+                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz"
+                    ) as f:
+                        np.savez_compressed(
+                            f, rho_design_elements=rho[tsk.design_elements]
+                        )
                 with self._timed_section("timing_plot"):
                     self._save_timing_plot()
                 if conv_rho and conv_kkt:
diff --git a/scikit-topt/sktopt/tools/fileio.py b/scikit-topt/sktopt/tools/fileio.py
new file mode 100644
index 0000000..090f776
--- /dev/null
+++ b/scikit-topt/sktopt/tools/fileio.py
@@ -0,0 +1,31 @@
+import os
+from contextlib import contextmanager
+
+
+@contextmanager
+def atomic_write(path: str, mode: str = "wb"):
+    """
+    Open a file for writing that appears under ``path`` only when complete.
+
+    The content goes to a temporary file beside ``path``, is flushed to disk,
+    and replaces ``path`` in one step. If writing fails, an existing file at
+    ``path`` is left as it was.
+
+    Parameters
+    ----------
+    path : str
+        Final file path.
+    mode : str, optional
+        File mode for writing, ``"wb"`` by default.
+    """
+    tmp = f"{path}.tmp"
+    try:
+        with open(tmp, mode) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp, path)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..19eb794 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -3,6 +3,7 @@ from typing import Optional, Literal
 import math
 import numpy as np
 import matplotlib.pyplot as plt
+from sktopt.tools.fileio import atomic_write
 from sktopt.tools.logconf import mylogger
 logger = mylogger(__name__)
 
@@ -598,7 +599,8 @@ class HistoryCollection():
             return
 
         path = os.path.join(self.dst_path, fname)
-        np.savez(path, **histories)
+        with atomic_write(path) as f:
+            np.savez(f, **histories)
 
         # import copy
         # before_histories = copy.deepcopy(self.histories)
-- 
2.43.0


From 53cbf1ec105017b4d3892d67a1f07d26ba9e8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 09/23] fix: imported configurations held plain dicts instead
 of schedules

import_from passed the nested JSON objects through, so a run could not be
set up from the cfg.json in its own directory.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 5d654eb..74edf14 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -318,6 +318,10 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        for key, value in data.items():
+            # petsc_options is normalized in __post_init__.
+            if isinstance(value, dict) and key != "petsc_options":
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From 0506acf81af1bd73e4b92acd2e8d4712336c5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 10/23] fix: a fresh run left the checkpoints and histories of
 earlier runs

Restarting it could then resume from a checkpoint of another run, which has
other densities or even another number of elements, and report its
histories.
---
 scikit-topt/sktopt/core/misc.py                      | 11 ++++++++++-
 scikit-topt/sktopt/core/optimizers/common_density.py |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index db80a98..de1489c 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -5,8 +5,11 @@ import re
 from sktopt import tools
 
 
+ITER_FILE_PATTERN = re.compile(r"(\d{6,})-rho\.npz")
+
+
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6,})-rho\.npz")
+    pattern = ITER_FILE_PATTERN
     max_iter = -1
     latest_file = None
 
@@ -22,6 +25,12 @@ def find_latest_iter_file(dst_path: str):
         if latest_file else None
 
 
+def remove_iter_files(dst_path: str):
+    for fname in os.listdir(dst_path):
+        if ITER_FILE_PATTERN.fullmatch(fname):
+            os.remove(os.path.join(dst_path, fname))
+
+
 def str2bool(value):
     if isinstance(value, bool):
         return value
diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 74edf14..3eb8324 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -559,6 +559,10 @@ class DensityMethod(DensityMethodBase):
             os.makedirs(f"{self.cfg.dst_path}/mesh_rho")
             if not os.path.exists(f"{self.cfg.dst_path}/data"):
                 os.makedirs(f"{self.cfg.dst_path}/data")
+            # A later restart must not resume from an earlier run.
+            misc.remove_iter_files(f"{self.cfg.dst_path}/data")
+            if os.path.exists(f"{self.cfg.dst_path}/histories.npz"):
+                os.remove(f"{self.cfg.dst_path}/histories.npz")
 
         if isinstance(tsk, sktopt.mesh.LinearElasticity):
             self.fem = fea.FEM_SimpLinearElasticity(
-- 
2.43.0


From e34babab005fd2438a714eed45cea19a822344d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 11/23] fix: restarting lost the running scale and the
 multiplier

Checkpoints held only the densities. A restarted run reset the smoothed
sensitivity scale and the volume multiplier and diverged from the run that
was never interrupted.
---
 .../sktopt/core/optimizers/common_density.py        | 13 ++++++++++++-
 scikit-topt/sktopt/core/optimizers/logmoc.py        |  2 ++
 scikit-topt/sktopt/core/optimizers/oc.py            |  2 ++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 3eb8324..ab45718 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -533,6 +533,10 @@ class DensityMethod(DensityMethodBase):
         ``beta``, ``move_limit``, ``percentile``, and ``filter_radius``.
     """
 
+    # scalars a subclass carries from one iteration to the next besides the
+    # densities; stored in every checkpoint so that a restart continues them
+    _carried_state: tuple[str, ...] = ()
+
     def __init__(
         self,
         cfg: DensityMethodConfig,
@@ -740,6 +744,9 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
             self.recorder.import_histories()
             rho[tsk.design_elements] = data["rho_design_elements"]
+            for name in self._carried_state:
+                if name in data:
+                    setattr(self, name, float(data[name]))
             del data
         else:
             rho += val_init
@@ -1242,7 +1249,11 @@ class DensityMethod(DensityMethodBase):
                         f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz"
                     ) as f:
                         np.savez_compressed(
-                            f, rho_design_elements=rho[tsk.design_elements]
+                            f, rho_design_elements=rho[tsk.design_elements],
+                            **{
+                                name: getattr(self, name)
+                                for name in self._carried_state
+                            }
                         )
                 with self._timed_section("timing_plot"):
                     self._save_timing_plot()
diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index 88c406d..f0dccd2 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -67,6 +67,8 @@ def lagrangian_log_update(
 
 
 class LogMOC_Optimizer(common_density.DensityMethod):
+    _carried_state = ("running_scale", "lambda_v")
+
     def __init__(
         self,
         cfg: LogMOC_Config,
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index b7ec256..bc54c1d 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -110,6 +110,8 @@ class OC_Config(common_density.DensityMethod_OC_Config):
 
 
 class OC_Optimizer(common_density.DensityMethod):
+    _carried_state = ("running_scale",)
+
     def __init__(
         self,
         cfg: OC_Config,
-- 
2.43.0


From 8860745af991dc69151936ec74d3620248d92a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 12/23] fix: restarting lost or duplicated history entries

Histories were written only when a run ended, so a run restarted after a
crash lost the entries of the finished iterations, and one restarted from an
earlier checkpoint of a complete run got them twice. Every checkpoint now
holds the histories up to its iteration.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 12 +++++++++++-
 scikit-topt/sktopt/tools/history.py                  |  8 ++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index ab45718..ae44547 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -742,7 +742,13 @@ class DensityMethod(DensityMethodBase):
                 data = np.load(data_path)
                 iter_begin = iter_num + 1
             iter_end = cfg.max_iters + 1
-            self.recorder.import_histories()
+            if any(key.startswith("histories/") for key in data.files):
+                self.recorder.import_histories(
+                    f"data/{os.path.basename(data_path)}", "histories/"
+                )
+            else:
+                # checkpoint without histories, written by an older version
+                self.recorder.import_histories()
             rho[tsk.design_elements] = data["rho_design_elements"]
             for name in self._carried_state:
                 if name in data:
@@ -1253,6 +1259,10 @@ class DensityMethod(DensityMethodBase):
                             **{
                                 name: getattr(self, name)
                                 for name in self._carried_state
+                            },
+                            **{
+                                f"histories/{name}": array for name, array
+                                in self.recorder.histories_to_array().items()
                             }
                         )
                 with self._timed_section("timing_plot"):
diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 19eb794..1ed9f39 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -611,7 +611,9 @@ class HistoryCollection():
         #     )
         # )
 
-    def import_histories(self, fname: Optional[str] = None):
+    def import_histories(
+        self, fname: Optional[str] = None, prefix: str = ""
+    ):
         """
         Load histories from a ``.npz`` file and rebuild the loggers.
 
@@ -631,6 +633,8 @@ class HistoryCollection():
         fname : str, optional
             Input file name (without path). Defaults to
             ``"histories.npz"``.
+        prefix : str, optional
+            Read only the arrays whose keys start with this prefix.
         """
         if fname is None:
             fname = "histories.npz"
@@ -649,7 +653,7 @@ class HistoryCollection():
 
         with np.load(path, allow_pickle=True) as data:
             for key in data.files:
-                if key.endswith("_header"):
+                if key.endswith("_header") or not key.startswith(prefix):
                     continue
 
                 arr = data[key]
-- 
2.43.0


From 60f0e552ffb78856b750e9aedfe14afa75ec6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 13/23] fix: exporting histories dropped those without entries

export_histories() reloads the file it wrote, which does not hold empty
histories; feeding one of them afterwards raised KeyError.
---
 scikit-topt/sktopt/tools/history.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 1ed9f39..7176c25 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -648,8 +648,12 @@ class HistoryCollection():
             logger.warning(f"File not found: {path}")
             return
 
-        # Create new container to accumulate updated histories
-        new_histories = {}
+        # Create new container to accumulate updated histories; histories
+        # without entries are not in the file
+        new_histories = {
+            name: hist for name, hist in self.histories.items()
+            if not hist.exists()
+        }
 
         with np.load(path, allow_pickle=True) as data:
             for key in data.files:
-- 
2.43.0


From 987bd7898a18d4b4054a78bcb03dd5ef0f0b22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 14/23] fix: calling an optimizer again after a failure
 repeated or broke iterations

The next iteration was only remembered when a call ended normally, and a
failed iteration left its history entries, running scale, multiplier and
densities behind. A failing iteration is now undone and repeated by the
next call, and a converged run stays ended even if writing its final files
fails.
---
 .../sktopt/core/optimizers/common_density.py  | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index ae44547..aed80e7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -600,6 +600,8 @@ class DensityMethod(DensityMethodBase):
         self._iter_next: int | None = None
         self._iter_end: int | None = None
         self._completed: bool = False
+        # what to return to when an iteration fails half-way
+        self._iteration_backup: tuple | None = None
 
     def add_recorder(
         self, tsk: sktopt.mesh.FEMDomain
@@ -867,7 +869,7 @@ class DensityMethod(DensityMethodBase):
 
     def optimize(self):
         """Run optimization until ``cfg.max_iters`` (default behavior)."""
-        self._optimize_impl()
+        self._optimize_or_roll_back()
 
     def optimize_steps(self, num_steps: int):
         """
@@ -879,7 +881,22 @@ class DensityMethod(DensityMethodBase):
         if num_steps <= 0:
             logger.info("optimize_steps called with non-positive num_steps; skipping.")
             return
-        self._optimize_impl(num_steps)
+        self._optimize_or_roll_back(num_steps)
+
+    def _optimize_or_roll_back(self, max_steps: int | None = None):
+        """On failure, undo the unfinished iteration so it can be repeated."""
+        try:
+            self._optimize_impl(max_steps)
+        except BaseException:
+            if self._iteration_backup is not None:
+                iter_num, rho, carried, lengths = self._iteration_backup
+                if iter_num == self._iter_next:
+                    self._state.rho[:] = rho
+                    for name, value in carried.items():
+                        setattr(self, name, value)
+                    for name, length in lengths.items():
+                        del self.recorder.histories[name].data[length:]
+            raise
 
     def _ensure_state_initialized(self):
         """Initialize schedulers and iteration state if not already done."""
@@ -1057,6 +1074,15 @@ class DensityMethod(DensityMethodBase):
                 precision=6
             )
             state.last_iter = iter_num
+            self._iteration_backup = (
+                iter_num,
+                rho.copy(),
+                {name: getattr(self, name) for name in self._carried_state},
+                {
+                    name: len(hist.data)
+                    for name, hist in self.recorder.histories.items()
+                },
+            )
 
             if filter_radius != self.filter.radius:
                 logger.info("--- Filter Update ---")
@@ -1269,9 +1295,10 @@ class DensityMethod(DensityMethodBase):
                     self._save_timing_plot()
                 if conv_rho and conv_kkt:
                     converged = True
-                    break
+            self._iter_next = iter_end if converged else iter_num + 1
+            if converged:
+                break
 
-        self._iter_next = (iter_num + 1) if 'iter_num' in locals() else iter_start
         if converged or self._iter_next >= iter_end:
             self._finalize()
         self._report_timing()
-- 
2.43.0


From f92c3c063dc6ec14037ff09edbffa12c53676789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 15/23] fix: state solves returned unconverged or non-finite
 fields

CG's info, PETSc's converged reason and NaN results were ignored, so an
iterative solver that gave up decided the optimization with a wrong field
and 'auto' never fell back to the direct solver.
---
 scikit-topt/sktopt/fea/solver_elastic.py | 26 ++++++++++++++++++++++++
 scikit-topt/sktopt/fea/solver_heat.py    |  8 +++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 99f35f2..4131267 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -58,6 +58,27 @@ def normalize_linear_solver_config(
     )
 
 
+def require_converged(u: np.ndarray, infos, solver: str) -> None:
+    """
+    Raise if a linear solver did not deliver a solution.
+
+    Parameters
+    ----------
+    u : np.ndarray
+        Computed solution(s).
+    infos : int or list of int
+        Status per right-hand side: SciPy's ``info`` for iterative solvers,
+        the converged reason for PETSc, 0 for direct solvers.
+    solver : str
+        Name of the solver.
+    """
+    for info in np.atleast_1d(infos):
+        if info < 0 or (info > 0 and solver.startswith("cg")):
+            raise RuntimeError(f"{solver} did not converge (info={info})")
+    if not np.all(np.isfinite(u)):
+        raise RuntimeError(f"{solver} returned a non-finite solution")
+
+
 def solve_u(
     K_cond: scipy.sparse.spmatrix,
     F_cond: np.ndarray,
@@ -134,11 +155,14 @@ def solve_u(
         else:
             raise ValueError(f"Unknown solver: {chosen_solver}")
 
+        require_converged(u_c, info, chosen_solver)
+
     except Exception as e:
         if not allow_fallback_to_spsolve:
             raise
         logger.warning(f"Solver exception - {e}, falling back to spsolve.")
         u_c = scipy.sparse.linalg.spsolve(K_cond, F_cond)
+        require_converged(u_c, 0, "spsolve")
 
     return u_c
 
@@ -380,6 +404,7 @@ def solve_multi_load(
                 petsc_options=_petsc_options,
             )
         logger.info(f"PETSc multi-load solver info: {infos}")
+        require_converged(u_sol, infos, solver_cfg.solver)
     else:
         # Perform a single LU factorization of K_e
         with section("factorize"):
@@ -388,6 +413,7 @@ def solve_multi_load(
         # Solve all load cases in one call (multi-RHS solve)
         with section("solve"):
             u_sol = lu.solve(F_stack)      # shape: (n_dof, n_loads)
+        require_converged(u_sol, 0, "splu")
 
     # Store the solutions in the provided array
     u_all[:, :] = u_sol
diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..9fbe0f7 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -16,7 +16,11 @@ from sktopt.fea._petsc_compat import (
     petsc_options_for_solver,
     solve_u_petsc_multi,
 )
-from sktopt.fea.solver_elastic import LinearSolverConfig, normalize_linear_solver_config
+from sktopt.fea.solver_elastic import (
+    LinearSolverConfig,
+    normalize_linear_solver_config,
+    require_converged,
+)
 from sktopt.tools.logconf import mylogger
 logger = mylogger(__name__)
 
@@ -187,9 +191,11 @@ def solve_heat_system_multi(
             petsc_options=petsc_options,
         )
         logger.info(f"PETSc heat multi-load solver info: {infos}")
+        require_converged(u_sol, infos, solver_name)
     else:
         lu = scipy.sparse.linalg.splu(K_e.tocsc())
         u_sol = lu.solve(F_stack)
+        require_converged(u_sol, 0, solver_name)
 
     u_all[:, :] = u_sol
     return K_e.tocsr()
-- 
2.43.0


From 64c9ee8cc9cc6ba589010c7a77cb860b886fcc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 16/23] fix: heat load cases with different supports used the
 first one's matrix

solve_heat_system_multi enforced the Dirichlet DOFs of the first load case
in the matrix of all of them, so the other temperature fields satisfied
neither their supports nor the equilibrium.
---
 scikit-topt/sktopt/fea/solver_heat.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 9fbe0f7..dd2f7ef 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -159,6 +159,27 @@ def solve_heat_system_multi(
         u_all[:, :] = 0.0
         return K_csr
 
+    # The enforced matrix depends on the Dirichlet DOF set, so only load
+    # cases that share the set are solved together.
+    groups: dict[bytes, list[int]] = {}
+    for i, D_i in enumerate(dirichlet_dofs_list):
+        groups.setdefault(np.sort(D_i.all()).tobytes(), []).append(i)
+    if len(groups) > 1:
+        u_sol = np.empty_like(u_all)
+        for members in groups.values():
+            u_group = np.empty((u_all.shape[0], len(members)))
+            K_e = solve_heat_system_multi(
+                K_csr,
+                emit,
+                [dirichlet_dofs_list[i] for i in members],
+                [dirichlet_values_list[i] for i in members],
+                u_group,
+                solver_config,
+            )
+            u_sol[:, members] = u_group
+        u_all[:, :] = u_sol
+        return K_e
+
     D0 = dirichlet_dofs_list[0]
     val0 = dirichlet_values_list[0]
     K_e, _ = skfem.enforce(
-- 
2.43.0


From a84be8ecfe42ebe25fb878cb85d4bf4ed014ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 17/23] fix: OC densities became NaN where a sensitivity was
 positive

---
 scikit-topt/sktopt/core/optimizers/oc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index bc54c1d..93d2b1c 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -50,6 +50,8 @@ def bisection_with_physical_volume(
     vol_error = 0.0
     while True:
         np.negative(dC, out=scaling_rate)
+        # adding material where dC > 0 does not help; its root is NaN
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         scaling_rate /= (lmid + eps)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
-- 
2.43.0


From 4513e3396f46803b3a1230461b75c8397e83271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 18/23] fix: nodal densities of the heat model came from the
 wrong elements

t.ravel() walks the connectivity by local node, so element values have to be
tiled, not repeated.
---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index dd2f7ef..da3a477 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -634,7 +634,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -759,7 +759,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
-- 
2.43.0


From 3beebd82d361498d4a9d86ad069d69cbf78667ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 19/23] fix: a run restarted from its converged iteration went
 on iterating

---
 .../sktopt/core/optimizers/common_density.py   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index aed80e7..fc7d18e 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -756,6 +756,8 @@ class DensityMethod(DensityMethodBase):
                 if name in data:
                     setattr(self, name, float(data[name]))
             del data
+            if self._restored_iteration_converged():
+                iter_begin = iter_end
         else:
             rho += val_init
             np.clip(rho, cfg.rho_min, cfg.rho_max, out=rho)
@@ -769,6 +771,22 @@ class DensityMethod(DensityMethodBase):
         rho[tsk.fixed_elements] = 1.0
         return rho, iter_begin, iter_end
 
+    def _restored_iteration_converged(self) -> bool:
+        """Whether the run a checkpoint comes from had converged there."""
+        if not self.cfg.check_convergence:
+            return False
+        change = self.recorder.histories["rho_change_max"].data
+        residual = self.recorder.histories["kkt_residual"].data
+        if len(change) == 0 or len(residual) == 0:
+            return False
+        return bool(
+            change[-1] < self.cfg.tol_rho_change
+            and (
+                not np.isfinite(residual[-1])
+                or abs(residual[-1]) < self.cfg.tol_kkt_residual
+            )
+        )
+
     def initialize_params(self):
         """
         Initialize parameters and preallocate work arrays for density-based topology
-- 
2.43.0


From 3fbdc185ba688507e58fe769b515c8aa87bc586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 20/23] fix: an interrupted clock read broke the timer's
 nesting

---
 scikit-topt/sktopt/tools/timer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 261178e..20e116d 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -60,14 +60,16 @@ class SectionTimer:
             full_name = self._sep.join([*self._stack, name])
         else:
             full_name = name
-        self._stack.append(name)
+        # The clock read may itself be interrupted; the stack changes only
+        # after the first read and is restored before the second.
         start = self._clock()
+        self._stack.append(name)
         try:
             yield
         finally:
+            self._stack.pop()
             duration = self._clock() - start
             self._records[full_name].append(duration)
-            self._stack.pop()
 
     def wrap(self, name: str):
         """
-- 
2.43.0


From ba2b071b4837074981dd41cd48604cd8f961d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 21/23] fix: a run that ends with no element above the
 threshold raised

---
 scikit-topt/sktopt/mesh/visualization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/visualization.py b/scikit-topt/sktopt/mesh/visualization.py
index 0b1b51a..0c63db0 100644
--- a/scikit-topt/sktopt/mesh/visualization.py
+++ b/scikit-topt/sktopt/mesh/visualization.py
@@ -1,3 +1,5 @@
+import os
+
 import numpy as np
 import sktopt
 
@@ -21,6 +23,11 @@ def export_submesh(
     kept_elements = setdiff1d(
         tsk.all_elements, remove_elements
     )
+    if kept_elements.size == 0:
+        # nothing to show; do not leave an older result in its place
+        if os.path.exists(dst_path):
+            os.remove(dst_path)
+        return
     kept_t = mesh.t[:, kept_elements]
     unique_vertex_indices = np.unique(kept_t)
     new_points = np.ascontiguousarray(mesh.p[:, unique_vertex_indices])
-- 
2.43.0


From 1876b30b1c9a26b5e4c44a6adf14410e286a7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 22/23] fix: a failed buffer allocation left an optimizer
 unusable

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 3 ++-
 scikit-topt/sktopt/core/optimizers/oc.py     | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index f0dccd2..56fb1b6 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -119,7 +119,8 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             self._dL_buffer = np.empty_like(dC_drho_design_eles)
         if self._dV_chain_design is None:
             self._dV_chain_design = np.empty_like(dC_drho_design_eles)
-        if self._dV_projected_full is None:
+        # ask for the one allocated last: an allocation in between may fail
+        if self._dL_full is None:
             state = self._state
             if state is None:
                 raise RuntimeError("Optimizer state is not initialized.")
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 93d2b1c..bde381b 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -190,10 +190,11 @@ class OC_Optimizer(common_density.DensityMethod):
         state = self._state
         if state is None:
             raise RuntimeError("Optimizer state is not initialized.")
-        if self._rho_e_buffer is None:
+        # ask for the one allocated last: an allocation in between may fail
+        if self._dC_raw_buffer is None:
             self._rho_e_buffer = np.empty_like(rho_design_eles)
             self._dC_raw_buffer = np.empty_like(dC_drho_design_eles)
-        if not hasattr(self, "_rho_full_candidate"):
+        if not hasattr(self, "_rho_projected_candidate"):
             self._rho_full_candidate = np.empty_like(state.rho)
             self._rho_filtered_candidate = np.empty_like(state.rho)
             self._rho_projected_candidate = np.empty_like(state.rho)
-- 
2.43.0


From 309b7ab34aa63ccde64dc02cd7e35f9141fbc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:26 +0000
Subject: [PATCH 23/23] fix: a failed radius change left the element filter
 with a radius it did not use

---
 scikit-topt/sktopt/filters/helmholtz_filter_element.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/filters/helmholtz_filter_element.py b/scikit-topt/sktopt/filters/helmholtz_filter_element.py
index 287a06b..065f090 100644
--- a/scikit-topt/sktopt/filters/helmholtz_filter_element.py
+++ b/scikit-topt/sktopt/filters/helmholtz_filter_element.py
@@ -460,13 +460,18 @@ class HelmholtzFilterElement(BaseFilter):
         self,
         radius: float
     ):
-        self.radius = radius
+        before = (self.A, self.V)
         self.A, self.V = _update_radius(
             mesh=self.mesh,
             radius=radius,
             design_mask=self.design_mask
         )
-        self.preprocess(self.solver_option)
+        try:
+            self.preprocess(self.solver_option)
+        except BaseException:
+            self.A, self.V = before
+            raise
+        self.radius = radius
 
     @classmethod
     def from_defaults(
-- 
2.43.0

