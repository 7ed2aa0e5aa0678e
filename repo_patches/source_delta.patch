From 41ba0db8e23184eb18eb6f2ce3ea3e4d59011200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 01/36] fix: discard contours too degenerate for an ellipse
 instead of crashing

A contour with fewer than five distinct vertices makes the normal equations of
fit_ellipse singular; numpy's LinAlgError aborted the whole analysis.
---
 trackeddy/trackeddy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7d1c455..0a2ebb9 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -304,9 +304,14 @@ class TrackEddy:
                 continue
 
             # TODO clean the fit_ellipse function and input only eddy.contour
-            eddy.ellipse, eddy.ellipse_params = fit_ellipse(
-                eddy.contour[:, 0], eddy.contour[:, 1]
-            )
+            try:
+                eddy.ellipse, eddy.ellipse_params = fit_ellipse(
+                    eddy.contour[:, 0], eddy.contour[:, 1]
+                )
+            except np.linalg.LinAlgError:
+                # Too few or collinear vertices, no ellipse can be fitted.
+                discarded = eddy.discarded(reason="ellipse_fit_failed")
+                continue
 
             # Check if area is similar between fitted ellipse and contour
             # Discarding by area first improves the time.
-- 
2.43.0


From 5a051a7f99c119afbd18c96aab85598de164727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 02/36] fix: start each level with empty tables of identified
 and discarded eddies

The tables live in the class wide decorators and were only reset after a level
that identified an eddy, so discarded eddies (and, after an exception, also
identified ones) leaked into the results of later levels and datasets.
---
 trackeddy/trackeddy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 0a2ebb9..aee8859 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -279,6 +279,11 @@ class TrackEddy:
         discarded = None
         eddy = None
 
+        # Forget eddies left behind by a previous level, which happens when it
+        # identified none or raised an exception.
+        Eddy.store(exit=True)
+        Eddy.discarded(exit=True)
+
         contours, _ = extract_contours(self.X, self.Y, self.data2track.values, level)
 
         for contour in contours:
-- 
2.43.0


From e4a3acd36c6a0a3dfcf920fba2f4a188e6c90cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 03/36] fix: time_tracking without tf runs from t0 to the end
 of the dataset

It ignored t0 and crashed in the progress report, which divides by tf.
---
 trackeddy/trackeddy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index aee8859..e4b158b 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,9 +183,8 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if not tf:
-            times = range(0, len(self.Dataset[self.coords["time"]]))
-        else:
-            times = range(t0, tf)
+            tf = len(self.Dataset[self.coords["time"]])
+        times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
 
-- 
2.43.0


From c00b0bf57020b0817b9c13fb33a6ca51460e5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 04/36] fix: honour ntimes and tolerate snapshots without
 eddies when linking tracks

unlink_eddies_in_previous_times read MultiIndex levels, which keep the
identifiers of dropped rows, so every track stayed open for ever whatever
ntimes; and it raised a KeyError for a time without eddies, and for any
analysis starting at t0 > 0.
---
 trackeddy/utils.py | 90 +++++++++-------------------------------------
 1 file changed, 17 insertions(+), 73 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f26a7f5..0410948 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -154,75 +154,14 @@ def _mask_data_in_contour(coord_ind_contour, data_near_contour, level, mask="con
     return data_inside_contour, eddy_sign, eddy_maxima_loc, inside_contour
 
 
-def _get_non_duplicated_identifiers(merged_identifiers):
-    values, counts = np.unique(merged_identifiers, return_counts=True)
-
-    duplicated = []
-    for count in range(0, len(counts)):
-        if counts[count] >= 2:
-            duplicated.append(count)
-
-    values = np.delete(values, duplicated)
-    return values
-
-
 def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
-    # Move to decorator
-    if time < ntimes:
-        ntimes = time
-    # Extract identifier of eddies identified as the last imput in the table.
-    last_identified_eddies = previous_time.xs(time, level="time").index.levels[0]
-
-    # Loop and arrays to contain extracted identifier of eddies identified
-    # in the last ntimes in the table.
-    unlinked_tracks_in_time = last_identified_eddies
-    unlinked_times = np.ones_like(last_identified_eddies) * time
-    # Loop back in time to check if missing a eddy track
-    for prev_time in np.arange(time - ntimes, time):
-        # Extracted identifier of eddies identified in the last time-ntimes
-        # in the table.
-        previous_identified_eddies = previous_time.xs(
-            prev_time, level="time"
-        ).index.levels[0]
-
-        merged_identifiers = np.hstack(
-            (last_identified_eddies, previous_identified_eddies)
-        )
-
-        values = _get_non_duplicated_identifiers(merged_identifiers)
-
-        unlinked_tracks_in_time = np.hstack((unlinked_tracks_in_time, values))
-        unlinked_times = np.hstack((unlinked_times, np.ones_like(values) * prev_time))
-
-    # Perhaps not the cleanest code, but it ensures that only the last time
-    # for all the detected eddies is the output.
-    unlinked_tracks_in_time = np.unique(unlinked_tracks_in_time)
-
-    times = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .reset_index()
-        .groupby("identifier")
-        .max("time")["time"]
-        .values
-    )
+    # Keep only the last time each eddy was identified, if it was at most
+    # ntimes before the last time in the table.
+    table = previous_time.reset_index()
+    last_time = table.groupby("identifier")["time"].transform("max")
+    linkable = (table["time"] == last_time) & (last_time >= time - ntimes)
 
-    eddies_to_track = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .groupby(["identifier", "index"])
-        .last("time")
-    )
-
-    eddies_to_track["time"] = [times[index] for index, n in eddies_to_track.index]
-
-    eddies_to_track = eddies_to_track.reset_index().set_index(
-        ["identifier", "time", "index"]
-    )
-
-    previous_time = eddies_to_track.reindex(
-        previous_time.index.levels[0], level=0, fill_value=0
-    )
-
-    return eddies_to_track
+    return table[linkable].set_index(["identifier", "time", "index"]).sort_index()
 
 
 def track_online(track_in_time, current_time, time, ntimes):
@@ -232,12 +171,17 @@ def track_online(track_in_time, current_time, time, ntimes):
         track_in_time, time - 1, ntimes=ntimes
     )
 
-    # Detect nearest eddies.
-    index, nearest = _detect_nearest(previous_time, current_time)
-
-    # Update counter of current time to avoid overlap with the
-    # previous time
-    current_time, prev_count = _update_counter(previous_time, current_time)
+    if previous_time.empty:
+        index, nearest = [], []
+    else:
+        # Detect nearest eddies.
+        index, nearest = _detect_nearest(previous_time, current_time)
+        # Convert the position of the nearest eddy to its identifier.
+        index = previous_time.index.levels[0].values[index]
+
+    # Update counter of current time to avoid overlap with all the
+    # previous times
+    current_time, prev_count = _update_counter(track_in_time, current_time)
 
     # Rename identifier of  nearest eddies to match the previous
     # table identifier
-- 
2.43.0


From ac82e0d918aaa90e32670c626007da691cfc59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 05/36] fix: link at most one eddy per time to a track

Two eddies of a snapshot within reach of the same previous eddy both got its
identifier, which mixed two eddies in one track. The closest one keeps it.
---
 trackeddy/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 0410948..2b24f47 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -7,7 +7,14 @@ from sklearn.neighbors import BallTree
 
 
 def _rename_eddies_in_time(current_time, index, nearest, prev_count):
+    linked = set()
     for near in nearest:
+        # nearest is sorted by distance: a previous eddy continues in the closest
+        # of the current eddies only, the others start a new track.
+        if index[near][0] in linked:
+            continue
+        linked.add(index[near][0])
+
         shifted_counter = near + prev_count + 1
 
         current_time = current_time.rename(
@@ -112,6 +119,8 @@ def _detect_nearest(p_eddy, n_eddy):
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
     nearest, _ = np.where(distance_between_nearest < 0)
+    # Sort from the closest to the furthest.
+    nearest = nearest[np.argsort(distance[nearest, 0], kind="stable")]
     return index, nearest
 
 
-- 
2.43.0


From 309c1615707f39e2cbfa4e8d8d311106964c7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 06/36] fix: replace an eddy by at most one eddy of the next
 level

Two eddies of a level matching the same eddy of the previous levels could both
replace it and get the same identifier.
---
 trackeddy/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 2b24f47..e3e48c9 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -48,9 +48,9 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
     replaced_eddies = []
     for duplicated in nearest:
         shifted_counter = duplicated + prev_count + 1
-        previous_eddy = p_eddy.loc[index[duplicated][0]]
-        current_eddy = n_eddy.loc[shifted_counter]
-        previous_eddy = p_eddy.xs(
+        # The eddy may already have been replaced by another one of this level.
+        replaced = index[duplicated][0] in replaced_eddies
+        previous_eddy = (n_eddy if replaced else p_eddy).xs(
             (index[duplicated][0], 0), level=["identifier", "index"]
         )
         current_eddy = n_eddy.xs((shifted_counter, 0), level=["identifier", "index"])
@@ -63,6 +63,8 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
 
         # TODO check if this is the best condition.
         if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
+            if replaced:
+                n_eddy = n_eddy.drop(index[duplicated][0], level=0)
             n_eddy = n_eddy.rename(
                 index={shifted_counter: index[duplicated][0]}, level=0
             )
-- 
2.43.0


From 59001c883724f97be2029b41acf28efcf5191ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 07/36] fix: do not identify contours cut by the boundary as
 eddies

Open contours were fitted like closed ones, and accepted whenever the area
computed for the open curve happened to match the fitted ellipse.
---
 trackeddy/trackeddy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index e4b158b..6e50af7 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -307,6 +307,12 @@ class TrackEddy:
                 discarded = eddy.discarded("area")
                 continue
 
+            # Only closed contours, whose last vertex is the first one, are
+            # eddies. The others end at the boundary or at missing data.
+            if not np.allclose(eddy.contour[0], eddy.contour[-1]):
+                discarded = eddy.discarded("open_contour")
+                continue
+
             # TODO clean the fit_ellipse function and input only eddy.contour
             try:
                 eddy.ellipse, eddy.ellipse_params = fit_ellipse(
-- 
2.43.0


From fbe46174958d6a31b3b94648fdf2f03036e3db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 08/36] fix: keep the level where the eddy is best fitted, not
 the worst

contour_ellipse_error and contour_gaussian_error are similarities (1 for
identical curves), so the comparison replaced an eddy by a worse one.
---
 trackeddy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index e3e48c9..32a3980 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -62,7 +62,8 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
         c_gauss_error = current_eddy.contour_gaussian_error.values
 
         # TODO check if this is the best condition.
-        if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
+        # They are similarities to the fit: 1 is a perfect fit.
+        if p_ellipse_error < c_ellipse_error and p_gauss_error < c_gauss_error:
             if replaced:
                 n_eddy = n_eddy.drop(index[duplicated][0], level=0)
             n_eddy = n_eddy.rename(
-- 
2.43.0


From f023061265ec95f20ec393584ecd004f6bcc8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 09/36] fix: store the first snapshot with eddies when
 online_track is False

It was kept as the start of the tracks but never written to out_path.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6e50af7..d9c051c 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -202,6 +202,10 @@ class TrackEddy:
                     .set_index(["identifier", "time", "index"])
                     .sort_index(level=["identifier", "time", "index"])
                 )
+                if not online_track:
+                    store_snapshot(
+                        track_in_time, self.out_path, time, format=self.out_format
+                    )
                 continue
 
             # Reindex to avoid loosing indexes, it's important for the
-- 
2.43.0


From dc7ee96b0aa1226b9b97fde04cf043d6f747e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 10/36] fix: apply nan_treatment before the spatial filter

The missing values were replaced in a copy that the filter did not use.
---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index b5953c9..6f7c67f 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -61,7 +61,7 @@ def filter_data(func):
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
         elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
-            self.data2track = func(self, *args, kwargs.get("filter"))
+            self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
 
-- 
2.43.0


From edef39b22bf86ce5a1e4e5ed85390b1ce8a3d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 11/36] fix: refuse empty arrays and uninitialised objects in
 the contour engine

Empty arrays were read out of bounds, tracing an object which was never
initialised dereferenced garbage, and calling __init__ again leaked the
previous buffers.
---
 trackeddy/src/cntr.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index a607454..8d476a1 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -20,6 +20,7 @@
 #include "structmember.h"
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include "numpy/arrayobject.h"
 
 #if PY_MAJOR_VERSION >= 3
@@ -1336,7 +1337,8 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
         }
         mask_zones(iMax, jMax, mask, site->reg);
     }
-    /* I don't think we need to initialize site->data. */
+    /* trace initializes site->data, but get_cdata may be called before. */
+    memset(site->data, 0, sizeof(Cdata) * nreg);
     site->x = x;
     site->y = y;
     site->z = z;
@@ -1348,6 +1350,7 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
 
 void cntr_del(Csite *site)
 {
+    if (site == NULL) return;
     PyMem_Free(site->saddle);
     PyMem_Free(site->reg);
     PyMem_Free(site->data);
@@ -1834,6 +1837,12 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
     }
     iMax = PyArray_DIM(zpa, 1);
     jMax = PyArray_DIM(zpa, 0);
+    if (iMax < 1 || jMax < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "Arguments x, y, z, mask (if present) must not be empty.");
+        goto error;
+    }
     if (PyArray_DIM(xpa, 0) != jMax || PyArray_DIM(xpa, 1) != iMax ||
         PyArray_DIM(ypa, 0) != jMax || PyArray_DIM(ypa, 1) != iMax ||
         (mpa && (PyArray_DIM(mpa, 0) != jMax || PyArray_DIM(mpa, 1) != iMax)))
@@ -1851,6 +1860,18 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
     {
 	mask = NULL;
     }
+    /* Release what a previous call to __init__ allocated. */
+    if (self->site->data != NULL)
+    {
+        Cntr_clear(self);
+        self->site = cntr_new();
+        if (self->site == NULL)
+        {
+            PyErr_SetString(PyExc_MemoryError,
+                "Memory allocation failed in cntr_new.");
+            goto error;
+        }
+    }
     if ( cntr_init(self->site, iMax, jMax, (double *)PyArray_DATA(xpa),
                             (double *)PyArray_DATA(ypa),
                             (double *)PyArray_DATA(zpa), mask))
@@ -1886,6 +1907,11 @@ Cntr_trace(Cntr *self, PyObject *args, PyObject *kwds)
     {
         return NULL;
     }
+    if (self->site->data == NULL)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "Cntr has not been initialized.");
+        return NULL;
+    }
     if (levels[1] == -1e100 || levels[1] <= levels[0])
         nlevels = 1;
     return cntr_trace(self->site, levels, nlevels, nchunk);
@@ -1903,6 +1929,11 @@ Cntr_get_cdata(Cntr *self)
     int ni, nj;
     char *data;
 
+    if (self->site->data == NULL)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "Cntr has not been initialized.");
+        return NULL;
+    }
     dims[0] = ni = self->site->imax;
     dims[1] = nj = self->site->jmax;
 
-- 
2.43.0


From 49c95aa7168b8b1d941b360bae9ad978b0c5b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 12/36] fix: compute the Frechet distance to long curves
 without a RecursionError

---
 trackeddy/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 70eb80b..65e86cb 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -409,7 +409,11 @@ def frdist(P, Q):
 
     ca = np.ones((len_p, len_q), dtype=np.float64) * -1
 
-    dist = _c(ca, len_p - 1, len_q - 1, p, q)
+    # Fill the table in order, so the recursion in _c is never deeper than one
+    # call when one of the curves is long.
+    for i in range(len_p):
+        for j in range(len_q):
+            dist = _c(ca, i, j, p, q)
 
     return dist
 
-- 
2.43.0


From 47badfadd5da8a0eec5cac3a07b8fb1fe487bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 13/36] fix: the axis of a perfect circle is zero instead of
 nan

---
 trackeddy/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 65e86cb..de1fe5c 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -226,7 +226,7 @@ def fit_ellipse(x, y):
 
     a, b, c, d, e = x2
 
-    if b == 0 and a < c:
+    if b == 0 and a <= c:
         anglexaxis_rad = 0
     elif b == 0 and c < a:
         anglexaxis_rad = np.pi / 2
-- 
2.43.0


From 85951833fbb0de7eadff3612d0c76bc2d459a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 14/36] fix: accept the levels as a list

---
 trackeddy/trackeddy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index d9c051c..31290ff 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -228,6 +228,7 @@ class TrackEddy:
 
     def _detect_snapshot(self, time, levels):
         # Ignore level == 0 since it can cause issues.
+        levels = np.asarray(levels)
         levels = levels[levels != 0]
         if isinstance(time, int) and self.coords["time"]:
             data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
-- 
2.43.0


From 61124e8d49043517a46bf6dd2e8c5f1c6983fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 15/36] fix: locate the grid points of a contour when it is
 large or the grid is curvilinear

The points searched were limited to 3 degrees from the centre of the contour,
which cut larger ones close to the origin of the coordinates, and were assumed to
be a rectangle of the grid, which raised IndexError in a rotated grid.
---
 trackeddy/trackeddy.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 31290ff..cb7129a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -421,20 +421,11 @@ class TrackEddy:
         # To speed up the process of finding the nearest point,
         # we mask values near the point that are close by 5% of its value,
         # with a largest cap of 3 degrees if coordinates are geographical.
-        # The atol fixes the issue in x or y coordinates close to 0.
-        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
-        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
-
-        # This step finds some rough coordinates to crop the domain so
-        # the BallTree search is quicker.
-        sum_x = np.sum(Xmask * Ymask, 0)
-        sim_y = np.sum(Xmask * Ymask, 1)
-        # Corners of the box
-        shift_x = np.argmax(sum_x)
-        shift_y = np.argmax(sim_y)
-
-        # Extract last item, since it will always be different than 0.
-        mask_shape = np.unique(sum_x)[-1], np.unique(sim_y)[-1]
+        # The atol fixes the issue in x or y coordinates close to 0, and makes
+        # sure that the whole contour is within the box.
+        atol = np.maximum(3, 2 * np.max(np.abs(eddy.contour - pt), axis=0))
+        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=atol[0])
+        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=atol[1])
 
         x = self.X[Xmask * Ymask]
         y = self.Y[Xmask * Ymask]
@@ -453,11 +444,8 @@ class TrackEddy:
         ball_tree = BallTree(coords)
         dist, ind = ball_tree.query(eddy.contour, k=1)
 
-        # Extract coordinates from the mask shape
-        coord_slice = np.hstack(np.unravel_index(ind, mask_shape)).squeeze()
-
-        # Shift back to the original coordinates
-        coord_ind = coord_slice + [shift_y, shift_x]
+        # Extract the position of the coordinates in the grid
+        coord_ind = np.argwhere(Xmask * Ymask)[ind.squeeze()]
 
         (
             eddy.data_near_contour,
-- 
2.43.0


From 24fc1521c746044beff3531371f32da98fc9129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 16/36] fix: use two dimensional longitudes and latitudes
 stored as coordinates

---
 trackeddy/trackeddy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index cb7129a..486f199 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -107,6 +107,11 @@ class TrackEddy:
             self._get_dims(dim_name)
         for var_name in self.Dataset.keys():
             self._get_vars(var_name)
+        # 2D coordinates can also be coordinates of the data.
+        if "x_var" not in self.coords or "y_var" not in self.coords:
+            for coord_name in self.rawdata.coords:
+                if self.rawdata[coord_name].ndim == 2:
+                    self._get_vars(coord_name)
 
     def _get_dims(self, dim_name):
         if "time" in dim_name or dim_name == "t":
-- 
2.43.0


From e6769b103695ff0020802d3f59c7ddb874f8aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 17/36] fix: identify eddies independently of the order of the
 dimensions

---
 trackeddy/trackeddy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 486f199..488dff5 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -41,6 +41,8 @@ class TrackEddy:
         self.filter = "space"
 
         self.identify_coords()
+        # The grid is indexed as (y, x), independent of the order in the dataset.
+        self.rawdata = self._order_dims(self.rawdata)
         self.check_coords()
 
         self.identification_criteria = {
@@ -63,6 +65,13 @@ class TrackEddy:
         self.out_path = os.path.realpath(".")
         self.out_format = "csv"
 
+    def _order_dims(self, data):
+        if not (self.coords["x"] and self.coords["y"]):
+            return data
+        return data.transpose(
+            ..., self.coords["y"], self.coords["x"], missing_dims="ignore"
+        )
+
     def check_coords(self):
         if "x_var" in self.coords and "y_var" in self.coords:
             x_coord_name = self.coords["x_var"]
@@ -88,8 +97,8 @@ class TrackEddy:
             len(self.Dataset[x_coord_name].shape) == 2
             and len(self.Dataset[y_coord_name].shape) == 2
         ):
-            self.X = self.Dataset[x_coord_name].values
-            self.Y = self.Dataset[y_coord_name].values
+            self.X = self._order_dims(self.Dataset[x_coord_name]).values
+            self.Y = self._order_dims(self.Dataset[y_coord_name]).values
 
         else:
             raise ValueError(
-- 
2.43.0


From b211382f6b556055f82f0490f21798d0e4422292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 18/36] fix: do not lose eddies in silence when the storage
 format is unknown

The format hd5 raised TypeError, since the key of the table is required.
---
 trackeddy/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 32a3980..8fe4ede 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -222,4 +222,10 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
         case "json":
             track_in_time.to_json(out_path, **kwargs)
         case "hd5":
+            kwargs.setdefault("key", "identified_eddies")
             track_in_time.to_hdf(out_path, **kwargs)
+        case _:
+            raise ValueError(
+                "The format '{0}' is not supported, use 'csv', 'json' or "
+                "'hd5'.".format(format)
+            )
-- 
2.43.0


From 3457a493b75b907d11746441a82293a68ab12f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 19/36] fix: stop looking for a free position in a crowded
 generated field

---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 9e6acb2..8fdc851 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -131,7 +131,7 @@ class Generate_field:
                 or (distance < away_val * self.b).any()
             ) or loc
             count = 0
-            while checker or count >= 10000:
+            while checker and count < 10000:
                 newx = rnd.randint(0, self.xlen - 1)
                 newy = rnd.randint(0, self.ylen - 1)
                 self.eddies[key1]["loc"] = [[newx, newy]]
-- 
2.43.0


From dbe8975cdb849673e783289d10497be3b80c80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 20/36] fix: generate fields of any shape and reconstruct them

---
 trackeddy/generator/field_generator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 8fdc851..9c20f50 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -9,7 +9,6 @@ def dist(loc1, loc2):
 
 class Generate_field:
     def __init__(self, a, b, n, x, y, opt=""):
-        # BUG WHEN LEN(x) != LEN(y) ?
         self.xlen = len(x)
         self.ylen = len(y)
         self.a = a * rnd.uniform(0.9, 1.1)
@@ -176,7 +175,7 @@ class Generate_field:
         return indexs[0] + movcood[0], indexs[1] + movcood[1]
 
     def assemble_field(self, N, margin=50):
-        data = np.zeros((N, self.xlen + 2 * margin, self.ylen + 2 * margin))
+        data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
@@ -193,11 +192,11 @@ class Generate_field:
                 data[t, :, :] = data[t, :, :] + gauss
         return data
 
-    def reconstruct_field(self):
-        data = np.zeros((self.xlen, self.ylen))
+    def reconstruct_field(self, margin=50):
+        data = np.zeros((self.ylen + 2 * margin, self.xlen + 2 * margin))
         for keys, item in self.eddies.items():
             gauss = self.twoD_Gaussian(
-                self.pass_args(keys),
+                self.pass_args(keys, margin),
                 item["radius"][0],
                 item["radius"][1],
                 item["angle"],
-- 
2.43.0


From b011bd3e9820096276d3ea394ade113a1b56f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 21/36] fix: discard the contours which are not similar to
 their ellipse, not those which are

The comparison was inverted, and the similarity depended on where each curve
starts and on its direction, so well fitted eddies with some orientations were
discarded.
---
 trackeddy/geometry.py  | 16 ++++++++++++++++
 trackeddy/trackeddy.py |  7 +++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index de1fe5c..e424de0 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -278,6 +278,22 @@ def fit_ellipse(x, y):
     return rotated_ellipse.T, ellipse_params
 
 
+def signed_area(curve):
+    x, y = (curve - curve.mean(axis=0)).T
+    return np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]) / 2
+
+
+def align_curve(curve, reference):
+    """
+    align_curve Rotate the vertices of a closed curve to start from the closest
+    one to the start of the reference, and to follow its direction.
+    """
+    if signed_area(curve) * signed_area(reference) < 0:
+        curve = curve[::-1]
+    start = np.argmin(np.linalg.norm(curve[:-1] - reference[0], axis=1))
+    return np.vstack((curve[start:-1], curve[: start + 1]))
+
+
 def arc_length(curve):
     """
     Args:
diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 488dff5..5f29016 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -11,6 +11,7 @@ from trackeddy.decorators import check_return_eddies, filter_data
 from trackeddy.eddy import Eddy
 from trackeddy.geometry import (
     Fit_Surface,
+    align_curve,
     area_latlon_polygon,
     compute_similarity,
     eccentricity,
@@ -362,11 +363,13 @@ class TrackEddy:
                 discarded = eddy.discarded(reason="eccentricity")
                 continue
 
-            eddy.contour_ellipse_error = compute_similarity(eddy.contour, eddy.ellipse)
+            eddy.contour_ellipse_error = compute_similarity(
+                eddy.contour, align_curve(eddy.ellipse, eddy.contour)
+            )
 
             # Check if the similarity between the contours matches the
             # user criteria.
-            if eddy.contour_ellipse_error > self.identification_criteria["ellipse_fit"]:
+            if eddy.contour_ellipse_error < self.identification_criteria["ellipse_fit"]:
                 discarded = eddy.discarded(reason="similarity")
                 continue
 
-- 
2.43.0


From 4dad6db031b103deb90e5a7370df352ea13654e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 22/36] fix: area of the polygons around longitude 180 at the
 equator

---
 trackeddy/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index e424de0..6a843df 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -484,6 +484,8 @@ def area_latlon_polygon(lonlat):
 
     # Integrate
     area = abs(sum(integrands)) / (4 * np.pi)
+    # The integral is the area outside of a polygon around (180, 0).
+    area = min(area, 1 - area)
 
     radius = 6378137
     area_km = (area * 4 * np.pi * radius**2) * 1e-6  # km^2
-- 
2.43.0


From c6cc71c72cc0e890595d979738853eeca38caf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 23/36] fix: fit the gaussian for any amplitude of the field

---
 trackeddy/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 6a843df..ab4efe8 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -106,10 +106,14 @@ class Fit_Surface:
     def fit_curve(self, coords):
         bounds = self.construct_bounds()
 
+        # Fit the data relative to the amplitude, otherwise the optimisation
+        # stops at the initial guess when the amplitude is small.
+        X, Y, amplitude = coords
+
         res = least_squares(
             gaussian_residual,
             self.initial_guess,
-            args=(coords, self.data),
+            args=((X, Y, 1), self.data / amplitude),
             bounds=bounds,
         )
 
-- 
2.43.0


From b598585705bce3d1765166aeeae70b62b995588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 24/36] fix: do not divide by zero when chunking a single row
 or a negative number of chunks

---
 trackeddy/src/cntr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 8d476a1..d83de13 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1032,7 +1032,9 @@ data_init (Csite * site, long nchunk)
     long jcsize = jmax - 1;
     long ichunk, jchunk, irem, jrem, i, j, ij;
 
-    if (nchunk && two_levels)
+    /* A single row or column can not be divided, and larger chunks than the
+     * mesh are the same as none. */
+    if (nchunk > 0 && nchunk < imax + jmax && two_levels && imax > 1 && jmax > 1)
     {
         /* figure out chunk sizes
          * -- input nchunk is square root of maximum allowed zones per chunk
-- 
2.43.0


From cbeb52e174e3ba387c33c4be5f3d939c2856deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 25/36] fix: scale the parameters of the gaussian fit, which
 could end at the bounds of a clear gaussian

---
 trackeddy/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index ab4efe8..b501027 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -115,6 +115,9 @@ class Fit_Surface:
             self.initial_guess,
             args=((X, Y, 1), self.data / amplitude),
             bounds=bounds,
+            # The parameters differ in magnitude (position, widths and angle),
+            # without a scale the angle can end at its bound.
+            x_scale=np.ptp(bounds, axis=0),
         )
 
         fitdict = np.array(res.x)
-- 
2.43.0


From aaab6d6d0bcb68c9a44ee3eee33b093a451de046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 26/36] fix: fit gaussians on grids whose axes are swapped

---
 trackeddy/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index b501027..aeb2d5a 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -70,8 +70,9 @@ class Fit_Surface:
         return fitted_data, fitdict
 
     def construct_bounds(self):
-        xdelta = np.mean(np.diff(self.X, axis=1))
-        ydelta = np.mean(np.diff(self.Y, axis=0))
+        # Step of the grid, in curvilinear grids along any of the axes.
+        xdelta = max(abs(np.mean(np.diff(self.X, axis=axis))) for axis in (0, 1))
+        ydelta = max(abs(np.mean(np.diff(self.Y, axis=axis))) for axis in (0, 1))
 
         LCoordbounds = np.array(
             [[self.initial_guess[0] - xdelta], [self.initial_guess[1] - ydelta]]
-- 
2.43.0


From b1014c0ec69f532c3f10822acdbb4f4a871b2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 27/36] fix: do not modify the table of eddies given to
 track_online

---
 trackeddy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 8fe4ede..cb79b98 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -36,7 +36,8 @@ def _update_counter(p_eddy, n_eddy):
     # the previous eddy table. As if all the new eddies are unique.
     new_identifier = current_index + prev_count + 1
     new_index = n_eddy.index.set_levels(new_identifier, level=0)
-    n_eddy.index = new_index
+    # The table given is not modified.
+    n_eddy = n_eddy.set_axis(new_index, axis=0)
     return n_eddy, prev_count
 
 
-- 
2.43.0


From 22483997d7799652cb2081d52378981a5bf56eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 28/36] fix: refuse unknown filters instead of not filtering

---
 trackeddy/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index 6f7c67f..e533070 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -60,7 +60,8 @@ def filter_data(func):
         if kwargs.get("filter") == "both":
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
-        elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
+        elif kwargs.get("filter"):
+            # The function refuses the filters it doesn't know.
             self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
-- 
2.43.0


From 2729b3cbfc2f954da1123abc5c83838355b943a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 29/36] fix: table of the properties of an eddy without its
 contour

---
 trackeddy/eddy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/eddy.py b/trackeddy/eddy.py
index ee23659..4090090 100644
--- a/trackeddy/eddy.py
+++ b/trackeddy/eddy.py
@@ -149,6 +149,9 @@ class Eddy:
             in the out_properties list.
         """
         eddy_dict = self.to_dict(out_properties)
+        # Without the contour, the table has a single row.
+        if not any(np.ndim(value) for value in eddy_dict.values()):
+            eddy_dict = {k: np.atleast_1d(value) for k, value in eddy_dict.items()}
         table = pd.DataFrame.from_dict(eddy_dict, **kwards).reset_index()
         return table
 
-- 
2.43.0


From 2b65a9f2bcba803b218da95ce2867eea90fc2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 30/36] fix: draw the levels where nothing was identified or
 discarded

---
 trackeddy/trackeddy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 5f29016..cc7772f 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -546,7 +546,9 @@ class TrackEddy:
 
         n_colors = list(mcolors.XKCD_COLORS.keys())
 
-        levels = df_eddy_multilevel_store.level.unique()
+        levels = []
+        if not df_eddy_multilevel_store.empty:
+            levels = df_eddy_multilevel_store.level.unique()
         color_index = np.linspace(0, len(n_colors) - 1, len(levels), dtype=int)
 
         plt.figure(figsize=(10, 6), dpi=300)
@@ -587,7 +589,8 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in eddies.index.levels[0]:
+        # The tables are empty when nothing was identified or discarded.
+        for idx in [] if eddies.empty else eddies.index.levels[0]:
             Xcontour = eddies.loc[idx]["contour_path_x"]
             Ycontour = eddies.loc[idx]["contour_path_y"]
 
@@ -606,7 +609,7 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in discarded.index:
+        for idx in discarded.index if len(discarded) else []:
             x_cont = discarded.loc[idx]["contour_x"]
             y_cont = discarded.loc[idx]["contour_y"]
 
-- 
2.43.0


From 31002bd2be94e2982124171061baff01ae13fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 31/36] fix: the legend of the levels shows the colors of their
 contours

---
 trackeddy/trackeddy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index cc7772f..53ab398 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -567,7 +567,10 @@ class TrackEddy:
         if len(levels) < 5:
             for level in range(len(levels)):
                 plt.plot(
-                    c_path_x[0], c_path_y[0], color=n_colors[level], label=levels[level]
+                    c_path_x[0],
+                    c_path_y[0],
+                    color=n_colors[color_index[level]],
+                    label=levels[level],
                 )
             plt.legend()
 
-- 
2.43.0


From 636d7b1e1a3559ee76bcc4713fd527d287229723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 32/36] fix: tell open contours and failed ellipses from bad
 gaussians in the figures

---
 trackeddy/trackeddy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 53ab398..dfd5f98 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -629,6 +629,10 @@ class TrackEddy:
                     ax[1].plot(x_cont, y_cont, ".", color="orange", **plot_args)
                 case "gaussian_fit_failed":
                     ax[1].plot(x_cont, y_cont, ".", color="pink", **plot_args)
+                case "open_contour":
+                    ax[1].plot(x_cont, y_cont, ".", color="brown", **plot_args)
+                case "ellipse_fit_failed":
+                    ax[1].plot(x_cont, y_cont, ".", color="olive", **plot_args)
                 case _:
                     ax[1].plot(x_cont, y_cont, ".b", **plot_args)
 
@@ -639,10 +643,12 @@ class TrackEddy:
             "Ellipse area fail",
             "Eddy is island",
             "Gaussian fit failed",
+            "Open contour",
+            "Ellipse fit failed",
             "Contour != Gaussian",
         ]
 
-        colors = ["r", "gray", "c", "m", "orange", "pink", "b"]
+        colors = ["r", "gray", "c", "m", "orange", "pink", "brown", "olive", "b"]
         [
             ax[1].plot(
                 self.X[0, 0],
-- 
2.43.0


From 48cf38fae2d67734d8cb2947b32e59b123387d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 33/36] fix: snapshots asked for by their date or by a numpy
 integer

---
 trackeddy/trackeddy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index dfd5f98..351a458 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -245,10 +245,10 @@ class TrackEddy:
         # Ignore level == 0 since it can cause issues.
         levels = np.asarray(levels)
         levels = levels[levels != 0]
-        if isinstance(time, int) and self.coords["time"]:
+        if isinstance(time, (int, np.integer)) and self.coords["time"]:
             data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
         elif isinstance(time, str) and self.coords["time"]:
-            data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
+            data_snapshot = self.rawdata.sel({self.coords["time"]: time}).squeeze()
         else:
             data_snapshot = self.rawdata.squeeze()
 
-- 
2.43.0


From 8e978653a8fc3e1f8b151976f0f5410dd91a9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 34/36] fix: the bounds of the coordinates are not taken for
 the coordinates

---
 trackeddy/trackeddy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 351a458..ddd1d55 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -116,7 +116,9 @@ class TrackEddy:
         for dim_name in self.rawdata.dims:
             self._get_dims(dim_name)
         for var_name in self.Dataset.keys():
-            self._get_vars(var_name)
+            # The bounds of the coordinates (lon_bnds) are not on the grid.
+            if set(self.Dataset[var_name].dims) <= set(self.rawdata.dims):
+                self._get_vars(var_name)
         # 2D coordinates can also be coordinates of the data.
         if "x_var" not in self.coords or "y_var" not in self.coords:
             for coord_name in self.rawdata.coords:
-- 
2.43.0


From 57a26bd95730c161c64c67343b7e18814256651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 35/36] fix: eddies of analyses which run in several threads
 were mixed

---
 trackeddy/decorators.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index e533070..db90b65 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -1,3 +1,4 @@
+import threading
 from functools import wraps
 
 import pandas as pd
@@ -13,28 +14,34 @@ def eddy_identifier(f):
         Function that stores the data of identified and discarded eddies.
     """
 
+    # The counter of the function calls and the table to store data, of each
+    # thread, so that analyses which run at the same time are not mixed.
+    class State(threading.local):
+        def __init__(self):
+            self.calls = 0
+            self.df_store = pd.DataFrame({"": []})
+
+    state = State()
+
     def wrapped(*args, **kwargs):
         # If argument exit is passed, then reset the wrap function
         if "exit" in kwargs:
-            wrapped.calls = 0
-            wrapped.df_store = pd.DataFrame({"": []})
+            state.calls = 0
+            state.df_store = pd.DataFrame({"": []})
             return wrapped
 
         # Get table to store eddy data.
-        table = f(*args, id=wrapped.calls, **kwargs)
+        table = f(*args, id=state.calls, **kwargs)
         # if table within wrapper is empty, assign the output of the function
         # else concatenate the tables together.
-        if wrapped.df_store.empty:
-            wrapped.df_store = table
+        if state.df_store.empty:
+            state.df_store = table
         else:
-            wrapped.df_store = pd.concat((wrapped.df_store, table))
+            state.df_store = pd.concat((state.df_store, table))
         # Counter in wrapper that works as the eddy identifier.
-        wrapped.calls += 1
-        return wrapped.df_store
+        state.calls += 1
+        return state.df_store
 
-    # Definition of the counter of the function call and the table to store data.
-    wrapped.calls = 0
-    wrapped.df_store = pd.DataFrame({"": []})
     return wrapped
 
 
-- 
2.43.0


From ffc461e8c69fa98a02c4a94605442d26689a458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:24 +0000
Subject: [PATCH 36/36] fix: fields such as the latent heat are not taken for
 the coordinates

---
 trackeddy/trackeddy.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index ddd1d55..7efb485 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -1,4 +1,5 @@
 import os
+import re
 
 import numpy as np
 import pandas as pd
@@ -117,7 +118,9 @@ class TrackEddy:
             self._get_dims(dim_name)
         for var_name in self.Dataset.keys():
             # The bounds of the coordinates (lon_bnds) are not on the grid.
-            if set(self.Dataset[var_name].dims) <= set(self.rawdata.dims):
+            if var_name != self.rawdata.name and set(
+                self.Dataset[var_name].dims
+            ) <= set(self.rawdata.dims):
                 self._get_vars(var_name)
         # 2D coordinates can also be coordinates of the data.
         if "x_var" not in self.coords or "y_var" not in self.coords:
@@ -134,9 +137,16 @@ class TrackEddy:
             self.coords["y"] = dim_name
 
     def _get_vars(self, var_name):
-        if "lon" in var_name or var_name == "x":
+        # Whole words (nav_lon, geolat, longitude), as variables such as
+        # 'longwave' and 'latent_heat' are not coordinates.
+        words = re.findall("[a-z]+", var_name)
+        if var_name == "x" or any(
+            re.fullmatch("[a-z]*lon|lon[a-z]|[a-z]*longitudes?", word) for word in words
+        ):
             self.coords["x_var"] = var_name
-        elif "lat" in var_name or var_name == "y":
+        elif var_name == "y" or any(
+            re.fullmatch("[a-z]*lat|lat[a-z]|[a-z]*latitudes?", word) for word in words
+        ):
             self.coords["y_var"] = var_name
 
     def setup(self) -> None:
-- 
2.43.0

