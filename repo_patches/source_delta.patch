From ce1d30e5296e1c27c9fc720d0dd878d7edbff16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 01/23] fix: treat a step in which no rule application returns
 updates as an empty update

merge_updates returned None when every controller response was None, and the
runners then crashed inside SimulationState.batch_update.
---
 src/pylattica/core/runner/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..48ae24e 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -2,12 +2,12 @@ from ..constants import GENERAL, SITES
 
 
 def merge_updates(new_updates, curr_updates=None, site_id=None):
-    if new_updates is None:
-        return curr_updates
-
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
 
+    if new_updates is None:
+        return curr_updates
+
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
         curr_updates[SITES].update(new_updates.get(SITES, {}))
-- 
2.43.0


From 358c64a57b762af83c3919141f92636291b7797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 02/23] fix: route batch updates that only carry a SITES
 section to the sites

batch_update({SITES: {...}}) created a bogus site called "SITES".
---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From afc4714b543dead8650462366b9bfc0641cf5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 03/23] fix: do not modify the dictionary passed to
 SimulationState.from_dict

---
 src/pylattica/core/simulation_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 5c49e2b..ad303d4 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -25,7 +25,7 @@ class SimulationState:
 
     @classmethod
     def from_dict(cls, state_dict):
-        state = state_dict["state"]
+        state = {**state_dict["state"]}
         state[SITES] = {int(k): v for k, v in state[SITES].items()}
         return cls(state)
 
-- 
2.43.0


From 8cd22fbd3344629bdf23d549591d34a6c8f19eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 04/23] fix: make the parallel synchronous runner follow the
 same history as the serial one

Workers kept a private copy of the state and applied only the updates of the
last step, so a worker that received no batch in a step evaluated the rule on a
stale state from then on; the runner's own live state was never advanced, so
the result's output was the initial state; and conflicting updates of different
batches were merged first-wins instead of last-wins.
---
 .../core/runner/synchronous_runner.py         | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..bc7fb2c 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -59,17 +58,17 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = initial_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,21 +80,23 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
@@ -108,9 +109,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From 41000ff956e0f3bd90512d91f2711a9b1376d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 05/23] fix: run the synchronous runner on states without sites

The step's updates were None, which SimulationState.batch_update cannot apply.
---
 src/pylattica/core/runner/synchronous_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index bc7fb2c..5037ef9 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -94,7 +94,7 @@ class SynchronousRunner(Runner):
             params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = merge_updates(None)
         for batch_update_res in results:
             all_updates = merge_updates(batch_update_res, all_updates)
 
@@ -118,7 +118,7 @@ def _step_batch_parallel(
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = merge_updates(None)
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From 15cc34d03c53b7ab766e1d6431ffbc87bd5c4c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 06/23] fix: include the final step in SimulationResult.steps()
 and yield separate states

The last state was missing, and every yielded step was the same object, so
list(result.steps()) held one state repeated.
---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..4e78fce 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -73,8 +73,9 @@ class SimulationResult:
         """
         live_state = self.initial_state.copy()
         for diff in self._diffs:
-            yield live_state
+            yield live_state.copy()
             live_state.batch_update(diff)
+        yield live_state
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From baf78f5f302240083ead2f3baee30ea9bfd6b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 07/23] fix: return a copy of a stored step from
 SimulationResult.get_step

Modifying a step retrieved after load_steps() changed the recorded history.
---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 4e78fce..59a2f27 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -123,7 +123,7 @@ class SimulationResult:
 
         stored = self._stored_states.get(step_no)
         if stored is not None:
-            return stored
+            return stored.copy()
         else:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
-- 
2.43.0


From c8697fded9f9a78bce14412f272ae1a36de04a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 08/23] fix: load simulation results recorded by the runners

from_dict crashed on diffs with SITES/GENERAL sections and dropped general state.
---
 src/pylattica/core/simulation_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 59a2f27..34eb201 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,11 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            formatted = {k: v for k, v in diff.items() if k in (SITES, GENERAL)}
+            if SITES in diff:
+                formatted[SITES] = {int(k): v for k, v in diff[SITES].items()}
+            elif GENERAL not in diff:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From 60d6d886538f83826369af3c0994e6701c3c925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 09/23] fix: open simulation files read-only when loading them

---
 src/pylattica/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation.py b/src/pylattica/core/simulation.py
index 0b590f8..6ff1567 100644
--- a/src/pylattica/core/simulation.py
+++ b/src/pylattica/core/simulation.py
@@ -42,7 +42,7 @@ class Simulation:
 
     @classmethod
     def from_file(cls, fname):
-        with open(fname, "r+", encoding="utf-8") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             d = json.load(f)
             return cls.from_dict(d)
 
-- 
2.43.0


From 17470e048771f953787668cc8d95777335d6e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 10/23] fix: tile Cartesian motifs along the lattice vectors

The cell origin was computed as matrix @ n, but the rows of the matrix are the
lattice vectors, so non-symmetric lattices were tiled along the wrong directions.
---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..891e512 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(vec_coeff_set)
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From 5e5078c50c170f9efeca6655bdb15678b9146334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 11/23] fix: keep site IDs when a structure is loaded from
 reordered JSON

from_dict renumbered the sites in the order of the mapping.
---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 891e512..a28fef8 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -132,7 +132,7 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
+        for _, site in sorted(sites.items()):
             struct.add_site(site[SITE_CLASS], site[LOCATION])
 
         return struct
-- 
2.43.0


From 173407dec2c2f5adc0a5cf466bf44615b11d65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 12/23] fix: find sites on cell boundaries in spite of floating
 point error

The lookup offset was added after periodizing, so a coordinate of -1e-17 was
wrapped to the far side of the cell and its site was not found.
---
 src/pylattica/core/periodic_structure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index a28fef8..65505ea 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -140,13 +140,13 @@ class PeriodicStructure:
     def _get_rounded_coords(self, location: Iterable[float]) -> Iterable[float]:
         return np.round(location, OFFSET_PRECISION)
 
-    def _coords_with_offset(self, location: Iterable[float]) -> Iterable[float]:
-        return self._get_rounded_coords(location + self._offset_vector)
-
     def _transformed_coords(self, location: Iterable[float]) -> Iterable[float]:
-        periodized_coords = self.lattice.get_periodized_cartesian_coords(location)
-        offset_periodized_coords = self._coords_with_offset(periodized_coords)
-        return offset_periodized_coords
+        # the offset is added before periodizing so that points on a cell boundary
+        # are moved off it, and rounding errors can't put them on the opposite side
+        offset_periodized_coords = self.lattice.get_periodized_cartesian_coords(
+            location + self._offset_vector
+        )
+        return self._get_rounded_coords(offset_periodized_coords)
 
     def add_site(self, site_class: str, location: Tuple[float]) -> int:
         """Adds a new site to the structure.
-- 
2.43.0


From 8de458bab6d21b0e6d78a684b6713bc06b74cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 13/23] fix: leave out motif neighbors that fall outside a
 non-periodic structure

---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From 68e369436a4bade5c015fa847ea748c63487dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 14/23] fix: accept a site class in
 StochasticNeighborhoodBuilder.get

It could not be used inside a SiteClassNeighborhoodBuilder.
---
 src/pylattica/core/neighborhood_builders.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..548429b 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -81,13 +81,16 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neighborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        return StochasticNeighborhood([b.get(struct, site_class=site_class) for b in self.builders])
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
-- 
2.43.0


From ec1ce1b109ca301d8b81697d33a541f4331ab632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 15/23] fix: choose the random site among the IDs present in
 the state

---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From e2757b74b6d3b902b24643e7fb061528be6e0a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 16/23] fix: cycle through the palette in color_map instead of
 running off its end

---
 src/pylattica/visualization/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/helpers.py b/src/pylattica/visualization/helpers.py
index 84330d1..442c88c 100644
--- a/src/pylattica/visualization/helpers.py
+++ b/src/pylattica/visualization/helpers.py
@@ -19,7 +19,7 @@ def color_map(phases: List[str]) -> Dict[str, Tuple[int, int, int]]:
     color_map: Dict[str, Tuple[int, int, int]] = {}
     c_idx: int = 0
     for p in phases:
-        color_map[p] = COLORS[c_idx]
+        color_map[p] = COLORS[c_idx % len(COLORS)]
         c_idx += 1
 
     return color_map
-- 
2.43.0


From 6420ae8cb50fc0cecd1e866806949ddcf068d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 17/23] fix: remove the temporary frames of to_gif when saving
 fails

They were left in the working directory, where they also overwrote files of
the same name and collided with concurrent calls.
---
 src/pylattica/visualization/result_artist.py | 39 ++++++++++----------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 52c3c33..b2a9230 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -1,5 +1,6 @@
 import multiprocessing as mp
 import os
+import tempfile
 import time
 import sys
 
@@ -110,26 +111,24 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
-        img_names = []
-        for idx, img in enumerate(imgs):
-            fname = f"tmp_pylat_step_{idx}.png"
-            img.save(fname)
-            img_names.append(fname)
-
-        reloaded_imgs = []
-        for fname in img_names:
-            reloaded_imgs.append(Image.open(fname))
-
-        reloaded_imgs[0].save(
-            filename,
-            save_all=True,
-            append_images=reloaded_imgs[1:],
-            duration=wait * 1000,
-            loop=0,
-        )
-
-        for fname in img_names:
-            os.remove(fname)
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            img_names = []
+            for idx, img in enumerate(imgs):
+                fname = os.path.join(tmp_dir, f"tmp_pylat_step_{idx}.png")
+                img.save(fname)
+                img_names.append(fname)
+
+            reloaded_imgs = []
+            for fname in img_names:
+                reloaded_imgs.append(Image.open(fname))
+
+            reloaded_imgs[0].save(
+                filename,
+                save_all=True,
+                append_images=reloaded_imgs[1:],
+                duration=wait * 1000,
+                loop=0,
+            )
 
 
 def _get_img_parallel(step, step_kwargs):
-- 
2.43.0


From 37a6a2e0474980fb97d72a42faf37f3b80d08bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 18/23] fix: draw all three visible faces in
 SquareGridArtist3D's shell_only mode

Locations run from 0 to size - 1, so the two faces compared with size were empty.
---
 src/pylattica/visualization/square_grid_artist_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..ff71621 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -24,7 +24,7 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == size or loc[2] == size):
+            if not shell_only or (loc[1] == 0 or loc[0] == size - 1 or loc[2] == size - 1):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From 43ba8455636bb19a6cb4aeba7681e48f6122f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 19/23] fix: remove duplicate colors from the palette

Two phases of one color map could get the same color although the palette was not used up.
---
 src/pylattica/visualization/colors.py | 38 ---------------------------
 1 file changed, 38 deletions(-)

diff --git a/src/pylattica/visualization/colors.py b/src/pylattica/visualization/colors.py
index 75b85a9..8b80352 100644
--- a/src/pylattica/visualization/colors.py
+++ b/src/pylattica/visualization/colors.py
@@ -21,44 +21,6 @@ COLORS = [
     (250, 128, 114),
     (128, 0, 0),
     (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
-    (0, 255, 0),
-    (255, 255, 255),
-    (128, 128, 0),
-    (0, 0, 128),
-    (34, 139, 34),
-    (221, 160, 221),
-    (210, 105, 30),
-    (188, 143, 143),
-    (112, 128, 144),
-    (240, 255, 240),
-    (32, 178, 170),
-    (0, 255, 127),
-    (47, 79, 79),
-    (30, 144, 255),
-    (138, 43, 226),
-    (186, 85, 211),
-    (199, 21, 133),
-    (255, 20, 147),
-    (250, 235, 215),
-    (160, 82, 45),
-    (244, 164, 96),
-    (176, 196, 222),
-    (205, 92, 92),
-    (255, 215, 0),
-    (85, 107, 47),
-    (0, 128, 0),
-    (143, 188, 143),
-    (255, 140, 0),
-    (255, 69, 0),
-    (250, 128, 114),
-    (128, 0, 0),
-    (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
     (0, 255, 0),
     (255, 255, 255),
     (128, 128, 0),
-- 
2.43.0


From fb0446a2f537e69ee8230f3b908fe987caa74e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 20/23] fix: report the lattice dimension in
 StructureBuilder.build's error message

---
 src/pylattica/core/structure_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/structure_builder.py b/src/pylattica/core/structure_builder.py
index 8a465bf..5d80ad3 100644
--- a/src/pylattica/core/structure_builder.py
+++ b/src/pylattica/core/structure_builder.py
@@ -54,7 +54,7 @@ class StructureBuilder(ABC):
             if not len(size) == self.lattice.dim:
                 raise ValueError(
                     f"Desired structure dimensions, {size}, does not match "
-                    "dimensionality of lattice: {self.lattice.dim}"
+                    f"dimensionality of lattice: {self.lattice.dim}"
                 )
         else:
             size = [size for _ in range(self.lattice.dim)]
-- 
2.43.0


From e9247ebe4db11aab3b6dcb5e155786d5b942bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 21/23] fix: accept a site class in
 SiteClassNeighborhoodBuilder.get

It could not be used inside another composite builder.
---
 src/pylattica/core/neighborhood_builders.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 548429b..c4e916e 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -269,7 +269,7 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self._builders = nb_builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """Constructs the neighborhood of every site in the provided
         structure, conditional on the class of each site.
 
@@ -277,6 +277,9 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neigborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
@@ -285,7 +288,8 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         nbhood_map = {}
         for sclass, builder in self._builders.items():
-            nbhood = builder.get(struct, site_class=sclass)
-            nbhood_map[sclass] = nbhood
+            if site_class is None or sclass == site_class:
+                nbhood = builder.get(struct, site_class=sclass)
+                nbhood_map[sclass] = nbhood
 
         return SiteClassNeighborhood(struct, nbhood_map)
-- 
2.43.0


From 9fe00311c62df98bce873353bc4886c5e7a48efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 22/23] fix: let DiscreteResultAnalyzer.all_phases see steps
 added after its first call

The cached value also made final_phase_fractions leave out new phases.
---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c71e173 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0


From 34f42b906d5cd3cf8261d3a464be9bb59a14af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 23/23] fix: plot_phase_counts read attributes that do not
 exist

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index c71e173..97a147f 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -104,8 +104,9 @@ class DiscreteResultAnalyzer:
         """In a jupyter notebook environment, plots the number of phases at each
         time step.
         """
-        xs = np.arange(len(self.steps))
-        ys = [step.phase_count for step in self.steps]
+        analyzer = DiscreteStepAnalyzer()
+        xs = np.arange(len(self._result))
+        ys = [analyzer.phase_count(step) for step in self._result.steps()]
         plt.plot(xs, ys)
 
     def _get_steps_to_plot(self) -> Tuple[List[int], List[SimulationState]]:
-- 
2.43.0

