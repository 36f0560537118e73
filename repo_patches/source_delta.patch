From c17737badd6939c563f242412d69edf17d065233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:23 +0000
Subject: [PATCH 01/11] fix: compare skipped station by equality in track
 occupation

The station was looked up as a substring of the skipped station name, so a
train skipping "AB" lost its track occupation conditions at "A" as well.
---
 railway_solvers/railway_solvers/linear_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index bfe5b25..287000e 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -511,8 +511,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    skip = "skip_station" in train_sets and jp in train_sets["skip_station"] and s in train_sets["skip_station"][jp]
-                    if not skip:
+                    if not skip_station(jp, s, train_sets):
                         keep_trains_order(
                             s,
                             j,
@@ -533,8 +532,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             d_max,
                         )
 
-                    skip = "skip_station" in train_sets and j in train_sets["skip_station"] and s in train_sets["skip_station"][j]
-                    if not skip:
+                    if not skip_station(j, s, train_sets):
                         trains_order_at_s(
                             s,
                             j,
-- 
2.43.0


From 495260289b204c655479b8777b89018d86680217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:23 +0000
Subject: [PATCH 02/11] fix: keep train order at a station also when the second
 train skips it

The order was only tied to the order on the line when the second listed train
does not skip the station. Otherwise the order at the station was free and the
track occupation condition of the first train could be switched off.
---
 railway_solvers/railway_solvers/linear_solver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 287000e..16fead4 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -511,15 +511,15 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
+                    keep_trains_order(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        y,
+                        train_sets,
+                    )
                     if not skip_station(jp, s, train_sets):
-                        keep_trains_order(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            y,
-                            train_sets,
-                        )
                         trains_order_at_s(
                             s,
                             jp,
-- 
2.43.0


From f87fbc6cab58fcf61dca676334dce0f2bc47cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:33 +0000
Subject: [PATCH 03/11] fix: tie station order to line order only if both
 trains arrive over the line

A train that starts at the station has no previous station. It was treated as
following the other train, which tied the order at the two stations and excluded
valid schedules of trains running in opposite directions.
---
 railway_solvers/railway_solvers/linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 16fead4..c8a4460 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -421,7 +421,7 @@ def keep_trains_order(
         if s in train_sets["Jd"][sp].keys():
             # if both trains goes sp -> s and have common path
             if occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
-                if not can_MO_on_line(j, jp, s, train_sets):
+                if sp == previous_station(S[jp], s) and not can_MO_on_line(j, jp, s, train_sets):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
                     if s in y[j][jp]["one_station"] and sp in y[j][jp]["one_station"]:
-- 
2.43.0


From ba9be5cffc518923fecd55516c7d2388fefbfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:36 +0000
Subject: [PATCH 04/11] fix: add a delay to the given train only

The entries of a train were found by searching for its number anywhere in the
key, so delaying train 1 also delayed trains 11 or 101.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 data_formatting/data_formatting/utils.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 3e0e6dd..99a5bab 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -88,7 +88,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 40b12fa..e6535ea 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -490,7 +490,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
-- 
2.43.0


From 2afe29af0708b5b774321ff9a6cf791c91a6ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:36 +0000
Subject: [PATCH 05/11] fix: count turnaround time as preparation only at the
 first station

The flag for the first station was never reset, so the turnaround time of every
later station was left out of the stop time and reported as preparation time.
---
 data_formatting/data_formatting/make_J_taus.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3f279e8..8d3f039 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -460,15 +460,13 @@ def get_taus_stop(train_dict: dict, important_stations: dict, trains=None, r=1):
     """
     taus_stop = {}
     taus_prep = {}
-    first_station = False
 
     paths = get_Paths(train_dict)
     if trains == None:
         trains = paths.keys()
     for train in trains:
         for i, station in enumerate(paths[train]):
-            if i == 0:
-                first_station = True
+            first_station = i == 0
             if (i == len(paths[train]) - 1) and subsequent_block(
                 train_dict[train][1]["path"].tolist(),
                 blocks_list_4station(train_dict[train][1], station, important_stations)[
-- 
2.43.0


From f964d5a34bfbe5ffdef445369162f58d7ad4d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:36 +0000
Subject: [PATCH 06/11] fix: round preparation time like the other times

With resolution of one minute the preparation time collected with the stop times
was kept unrounded and replaced the rounded one.
---
 data_formatting/data_formatting/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index e6535ea..1e1c466 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -394,7 +394,9 @@ def minimal_stay(
     if np.isnan(turn_around) == False:
         turn_around = float(turn_around)
         if first_station == True:
-            taus_prep1[f"{train}_{station}"] = turn_around
+            taus_prep1[f"{train}_{station}"] = (
+                round(turn_around) if r == 1 else turn_around
+            )
             turn_around = 0
         t += turn_around
     time += t
-- 
2.43.0


From 457bc7dd7dd264218d3b0815f67c0471c9952049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:49 +0000
Subject: [PATCH 07/11] fix: give the empty-run weight to shunting trains only

Dropping the last digit of the number matched any train whose number extends a
shunted train's number, not only the one ending with nine.
---
 data_formatting/data_formatting/scheduling_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 99a5bab..9013d31 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -3,7 +3,6 @@ from datetime import datetime
 import pandas as pd
 
 from .make_J_taus import get_trains_pair9
-from .utils import flatten
 from .time_table_check import train_important_stations
 
 
@@ -112,7 +111,7 @@ def make_weights(
     for train in train_dict.keys():
         type_of_train = train_dict[train][0][0]
         weight = trains_weights[type_of_train]
-        if train // 10 in flatten(get_trains_pair9(train_dict)):
+        if train in [pair[1] for pair in get_trains_pair9(train_dict)]:
             weight = empty
         station = train_important_stations(train_dict[train][1])[-1]
         if train in skip_stations and station == skip_stations[train]:
-- 
2.43.0


From 48fc168ea4458936f97c612a7432ee38a2c8931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:49 +0000
Subject: [PATCH 08/11] fix: find opposing trains that end at a station of the
 single-track line

Trains ending at the station were skipped in the search, and since a line is
entered under one direction only, their opposing pairs were lost.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 8d3f039..3e0434b 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -194,7 +194,7 @@ def josingle(trains_dict, important_stations, imp_stations=None):
 
     init_josingle = {}
     imp_stations_list, trains_at_stations = important_trains_and_stations(
-        trains_dict, important_stations, imp_stations, True
+        trains_dict, important_stations, imp_stations, False
     )
 
     for s in imp_stations_list:
-- 
2.43.0


From a97d3a3a36331dc169a59a372644642694e757c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:49 +0000
Subject: [PATCH 09/11] fix: read switch cells that hold a number or nothing

A cell read as an integer or left empty stopped the search for switch conflicts
with an exception.
---
 data_formatting/data_formatting/make_switch_set.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index f161466..6a3e758 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -55,11 +55,13 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isnull(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
@@ -100,11 +102,13 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isnull(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
-- 
2.43.0


From 762d6ce9eb5dbccc5ddb3de8c08b00283be9d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:49 +0000
Subject: [PATCH 10/11] fix: reject paths with a gap between known blocks

Two consecutive blocks that are not adjacent were accepted if both occur elsewhere
in the network.
---
 data_formatting/data_formatting/time_table_check.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index 28ef4d1..2f982c9 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -107,3 +107,4 @@ def check_path_continuity(paths, data_path_check):
                 raise AssertionError(paths[i], "not present in possible paths")
             if data_path_check.isin([paths[i + 1]]).any(1).any() == False:
                 raise AssertionError(paths[i], "not present in possible paths")
+            raise AssertionError(paths[i], paths[i + 1], "are not adjacent")
-- 
2.43.0


From 97e1e04efee0ffaabf9cd56c99d44dc9947bd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:46 +0000
Subject: [PATCH 11/11] fix: count order variables by the beginning of their
 name

A delay variable of a station such as Zory-Pn contains "y_" in its name
and was counted as an order variable.
---
 helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.py b/helpers.py
index cd70abc..c43c870 100644
--- a/helpers.py
+++ b/helpers.py
@@ -143,7 +143,7 @@ def check_count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             assert v.varValue in [pytest.approx(0), pytest.approx(1)]
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
@@ -161,7 +161,7 @@ def count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
     constraints = prob.numConstraints()
-- 
2.43.0

