From 28e9f8fd02fedcce3c5f8cc90965aafa1f957e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 01/52] fix: keep recorded order of events with equal
 timestamps when sorting

---
 pipit/readers/otf2_reader.py        | 7 ++++++-
 pipit/readers/projections_reader.py | 7 ++++++-
 pipit/trace.py                      | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..610a2dc 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -472,7 +472,12 @@ class OTF2Reader:
 
         # ensures the DataFrame is in order of increasing timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # convert these to ints
diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..dbaf5d5 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -301,7 +301,12 @@ class ProjectionsReader:
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # categorical for memory savings
diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..a2c78da 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -91,7 +91,12 @@ class Trace:
 
         # sort the dataframe by Timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From c0c83be8dd7ab2b9adb22da2e61f95f8092fda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 02/52] fix: load_imbalance failed with TypeError on every
 trace

---
 pipit/trace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a2c78da..4fb28b6 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -574,7 +574,7 @@ class Trace:
         num_ranks = len(set(self.events["Process"]))
         num_display = num_ranks if num_processes > num_ranks else num_processes
 
-        flat_profile = self.flat_profile(metrics=metric, per_process=True)
+        flat_profile = self.flat_profile(metrics=metric, per_process=True)[metric]
 
         imbalance_dict = dict()
 
@@ -586,7 +586,9 @@ class Trace:
         imbalance_dict[imb_ranks] = []
         imbalance_dict[mean_metric] = []
 
-        functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
+        functions = list(
+            set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
+        )
         for function in functions:
             curr_series = flat_profile.loc[function]
 
-- 
2.43.0


From d1754ef9efd9c983ce4a6276b3aa6a875dbd71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 03/52] fix: idle_time modified its default and the caller's
 idle function list

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 4fb28b6..7549af0 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -625,7 +625,7 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            idle_functions = idle_functions + ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From 3add7cd97150b17d964ac364ec78754e151a1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 04/52] fix: distinct call paths shared a CCT node if names
 contain '->'

---
 pipit/util/cct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..b817dbe 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -45,7 +45,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth, callpath = 0, ()
 
         """
         Iterating over lists instead of
@@ -70,7 +70,7 @@ def create_cct(events):
             if evt_type == "Enter":
                 # add the function to the stack and get the call path
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
+                callpath = tuple(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
-- 
2.43.0


From 66f391b94216f9d274c6617ba60a2c7f319c3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 05/52] fix: caller/callee matching popped the wrong call when
 calls overlap

---
 pipit/trace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 7549af0..972442e 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -252,6 +252,7 @@ class Trace:
                 df_indices, event_types = list(filtered_df.index), list(
                     filtered_df["Event Type"]
                 )
+                matching_events = list(filtered_df["_matching_event"])
 
                 # loop through the events of the filtered dataframe
                 for i in range(len(filtered_df)):
@@ -277,11 +278,15 @@ class Trace:
                         # add enter dataframe index to stack
                         stack.append(curr_df_index)
                     else:
-                        # pop event off stack once matching leave found
+                        # remove event from stack once matching leave found
                         # Note: parent, and children for a leave row
                         # can be found using the matching index that
                         # corresponds to the enter row
-                        stack.pop()
+                        # (it's not at the top if calls overlap)
+                        if stack[-1] == matching_events[i]:
+                            stack.pop()
+                        else:
+                            stack.remove(matching_events[i])
 
                         curr_depth -= 1
 
-- 
2.43.0


From 369e7ef1a6f14a16aa860d4bdd44d34ce96c515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 06/52] fix: flat_profile rejected a list of groupby columns

---
 pipit/trace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 972442e..0eb70fc 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -535,6 +535,9 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        groupby_columns = (
+            groupby_column if isinstance(groupby_column, list) else [groupby_column]
+        )
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -550,13 +553,13 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
                 .groupby(groupby_column)
                 .mean()
-- 
2.43.0


From be9a5324086988c87f68aa8702a2b28fc7674181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 07/52] fix: Projections user-supplied notes got string
 timestamps and ids

---
 pipit/readers/projections_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index dbaf5d5..6393755 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -421,7 +421,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -437,9 +437,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
-- 
2.43.0


From d05473395343e15fcaf63a63df731c2b437f30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 08/52] fix: Projections end-of-user-event-pair records failed
 to load

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 6393755..4330d26 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -770,7 +770,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From 5403df564f563e5b316bc2898d3afe41f211136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 09/52] fix: Projections multicast records lost their
 attributes and destinations

---
 pipit/readers/projections_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 4330d26..8ec720c 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -518,7 +518,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -537,7 +537,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
-- 
2.43.0


From a97a6755565456d6c0a6dbd15256a537c76264c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 10/52] fix: Projections synthesised end of computation was
 1000 times too late

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 8ec720c..ce87f06 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -796,7 +796,7 @@ class ProjectionsReader:
 
             # Making sure that the log file ends with END_COMPUTATION
             if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+                time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From 0ab423795ae3d6c2f4bcdff5a9269550189b8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 11/52] fix: OTF2 metrics with ids above 9, several classes or
 no coupled event

---
 pipit/readers/otf2_reader.py | 46 +++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 610a2dc..3d7c2b4 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -201,7 +201,7 @@ class OTF2Reader:
             https://scorepci.pages.jsc.fz-juelich.de/otf2-pipelines/doc.r4707/python/basics.html#metrics
             """
 
-            # get members of metric class
+            # get members of all metric classes
             metric_members = (
                 self.definitions.loc[
                     self.definitions["Definition Type"] == "MetricClass"
@@ -209,12 +209,13 @@ class OTF2Reader:
                 .map(lambda attr: attr["members"])
                 .values
             )
-            metric_members = [] if len(metric_members) == 0 else metric_members[0]
 
             # ids of metric members
-            metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
-            )
+            metric_ids = [
+                int(metric_member.split(" ")[-1])
+                for class_members in metric_members
+                for metric_member in class_members
+            ]
 
             # names of metrics
             metric_names = (
@@ -229,9 +230,9 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # used to keep track of the metrics that were most recently
+            # read for each location, and the time they were read at
+            pending_metrics = {}
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -254,25 +255,26 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
                         # store the metrics and their timestamp
-                        prev_metric_time = event.time
+                        time, values = pending_metrics.get(loc._ref, (None, {}))
+                        if time != event.time:
+                            values = {}
+                        values.update(zip(metrics, metric_values))
+                        pending_metrics[loc._ref] = (event.time, values)
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
                         # has the same timestamp
-                        if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
-
-                        # reset this as a metric event was not read
-                        prev_metric_time = -1
+                        time, values = pending_metrics.pop(loc._ref, (None, {}))
+                        if event.time != time:
+                            values = {}
+
+                        # append the values for the metrics to their lists, and
+                        # placeholders if the event is not paired with a metric
+                        for metric in metrics_dict:
+                            metrics_dict[metric].append(
+                                values.get(metric, float("nan"))
+                            )
 
                         """
                         Below is code to read the primary information about the
-- 
2.43.0


From e094d8de5535afc567ad342b495c7d299ecc0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 12/52] fix: reading OTF2 traces with unreadable event files
 hung forever

---
 pipit/readers/otf2_reader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 3d7c2b4..f1e2ac1 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -350,6 +350,17 @@ class OTF2Reader:
 
         return trace_df
 
+    def events_reader_worker(self, rank_size):
+        """
+        Runs events_reader in a process of the pool. Errors of the otf2 library
+        can't be unpickled by the parent process, which would wait for them
+        forever, so they are converted to a standard exception.
+        """
+        try:
+            return self.events_reader(rank_size)
+        except Exception as e:
+            raise RuntimeError(f"Error reading {self.file_name}: {e!r}") from None
+
     def read_definitions(self, trace):
         """
         Reads the definitions from the trace and converts them to a Pandas
@@ -448,7 +459,7 @@ class OTF2Reader:
 
         # list of dataframes returned by the processes pool
         events_dataframes = pool.map(
-            self.events_reader, [(rank, pool_size) for rank in range(pool_size)]
+            self.events_reader_worker, [(rank, pool_size) for rank in range(pool_size)]
         )
 
         pool.close()
-- 
2.43.0


From c54fcfabd835b4d30ed064a803e15ba829d90441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 13/52] fix: single-process Nsight traces had no Process column

---
 pipit/readers/nsight_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..18f9263 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -54,6 +54,8 @@ class NsightReader:
             pid_dict = dict(zip(pid, range(0, len(pid))))
             # Using the dictionary to replace the Process values
             self.df["Process"].replace(pid_dict, inplace=True)
+        else:
+            self.df["Process"] = 0
 
         # Copy self.df to create enter and leave rows
         df2 = self.df.copy()
-- 
2.43.0


From 0f49e5fe01d9ed796c2d078223abaa8cd15644ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 14/52] fix: Nsight ranges with equal timestamps were not
 nested correctly

---
 pipit/readers/nsight_reader.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 18f9263..bb482ec 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import numpy as np
 import pandas as pd
 import pipit.trace
 
@@ -71,10 +72,26 @@ class NsightReader:
         # Combine dataframes together
         self.df = pd.concat([self.df, df2])
 
-        # Tidy Dataframe
-        self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
+        # Sort by timestamp. For equal timestamps, ranges that end come before
+        # ranges that start (innermost first and outermost first respectively),
+        # so that ranges are still nested correctly.
+        leave = (self.df["Event Type"] == "Leave").values
+        duration = (self.df["End (ns)"] - self.df["Start (ns)"]).values
+        row = self.df.index.values
+        empty = duration == 0
+        order = np.lexsort(
+            (
+                leave,
+                np.where(leave & ~empty, -row, row),
+                np.where(leave, duration, -duration),
+                np.where(empty, 1, np.where(leave, 0, 2)),
+                self.df["Timestamp (ns)"].values,
+            )
+        )
+        self.df = self.df.iloc[order]
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
+        # Tidy Dataframe
+        self.df = self.df.drop(["Start (ns)", "End (ns)"], axis=1)
 
         self.df.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From c3da9293bacbcba6ad0a6d10bda8a1f1624ed1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 15/52] fix: HPCToolkit source line numbers above 65535 were
 truncated

---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..95adc1e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -708,7 +708,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From 90c61a32fc637f4d6a7c063572255bd0cb0e1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 16/52] fix: HPCToolkit profiles without a node identifier
 failed to load

---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 95adc1e..6882b16 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -969,8 +969,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From d31ceb35a4d4c877d6dd6ddbbf69a265e323f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 17/52] fix: HPCToolkit traces of non-MPI applications had no
 Process column

---
 pipit/readers/hpctoolkit_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 6882b16..f0fcf74 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -972,7 +972,8 @@ class ProfileReader:
         if "NODE" not in tuples_map:
             tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
-            tuples_map["RANK"] = None
+            # not an MPI application, so there's only a single process
+            tuples_map["RANK"] = 0
         if "THREAD" not in tuples_map:
             tuples_map["THREAD"] = None
         if "CORE" not in tuples_map:
-- 
2.43.0


From bd265c4367937788032aa2aa669db1163c0bb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 18/52] fix: HPCToolkit databases with non-ASCII strings failed
 to load

---
 pipit/readers/hpctoolkit_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index f0fcf74..a61edc9 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -276,7 +276,7 @@ class MetaReader:
         self.common_string_index_map: dict = {}
         for i in range(len(self.common_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(self.common_strings[i].encode("UTF-8")) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
@@ -338,13 +338,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From b1bf45eb948c0672d679be7dd5d7bf133d2b2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 19/52] fix: HPCToolkit traces with anonymous functions failed
 to load

---
 pipit/readers/hpctoolkit_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a61edc9..6746a98 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -146,7 +146,10 @@ class MetaReader:
             # loop construct
             function_string = "loop"
             loop_type = True
-        elif function_index is not None:
+        elif (
+            function_index is not None
+            and self.functions_list[function_index]["string_index"] is not None
+        ):
             # The function map
             function = self.functions_list[function_index]
             # current_function_map = {"string_index": function_name_index, \
-- 
2.43.0


From 092a1b4f8f18bb127e40bd9b4f6f56fa09142417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 20/52] fix: reading truncated HPCToolkit databases hung
 forever

---
 pipit/readers/hpctoolkit_reader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 6746a98..508f173 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -4,6 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 
+import os
 import pandas as pd
 import pipit.trace
 from pipit.graph import Graph, Node
@@ -1343,6 +1344,17 @@ class TraceReader:
 
 class HPCToolkitReader:
     def __init__(self, directory: str) -> None:
+        # complete database files end with a footer, make sure they aren't truncated
+        for name, footer in [
+            ("meta.db", b"_meta.db"),
+            ("profile.db", b"_prof.db"),
+            ("trace.db", b"trace.db"),
+        ]:
+            with open(directory + "/" + name, "rb") as file:
+                file.seek(max(file.seek(0, os.SEEK_END) - len(footer), 0))
+                if file.read() != footer:
+                    raise ValueError("HPCToolkit file " + name + " is truncated.")
+
         self.meta_reader: MetaReader = MetaReader(directory + "/meta.db")
         self.profile_reader = ProfileReader(directory + "/profile.db", self.meta_reader)
         self.trace_reader = TraceReader(
-- 
2.43.0


From 89877797790c2b5cda13456587db5060c76db9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 21/52] fix: calls that overlap got a CCT node at the wrong
 level or of another path

---
 pipit/util/cct.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b817dbe..055030d 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -68,19 +68,27 @@ def create_cct(events):
 
             # encounter a new function through its entry point.
             if evt_type == "Enter":
-                # add the function to the stack and get the call path
-                functions_stack.append(function_name)
-                callpath = tuple(functions_stack)
-
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
 
+                # add the function to the stack and get the call path, which is
+                # identified by the node of the caller and the function's name
+                functions_stack.append(function_name)
+                callpath = (
+                    None if parent_node is None else parent_node._pipit_nid,
+                    function_name,
+                )
+
                 if callpath in callpath_to_node:
                     # don't create new node if callpath is in map
                     curr_node = callpath_to_node[callpath]
                 else:
                     # create new node if callpath isn't in map
-                    curr_node = Node(node_id, parent_node, curr_depth)
+                    curr_node = Node(
+                        node_id,
+                        parent_node,
+                        0 if parent_node is None else parent_node.get_level() + 1,
+                    )
                     callpath_to_node[callpath] = curr_node
                     node_id += 1
 
-- 
2.43.0


From c34ccda909e2754b1fc6252c121948bcd8f90c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 22/52] fix: OTF2 threads collapsed into one unless location
 ids were contiguous

---
 pipit/readers/otf2_reader.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index f1e2ac1..3985756 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -284,11 +284,11 @@ class OTF2Reader:
                         process_id = loc.group._ref
                         process_ids.append(process_id)
 
-                        # subtract the minimum location number of a process
-                        # from the location number to get threads numbered
-                        # 0 to (num_threads per process - 1) for each process.
+                        # the index of the location among those of its process,
+                        # to get threads numbered 0 to
+                        # (num_threads per process - 1) for each process.
                         thread_ids.append(
-                            loc._ref - self.process_threads_map[process_id]
+                            self.process_threads_map[process_id][loc._ref]
                         )
 
                         # type of event - enter, leave, or other types
@@ -367,9 +367,9 @@ class OTF2Reader:
         DataFrame
         """
 
-        # OTF2 stores locations numbered from 0 to the (total number of threads - 1)
-        # across all processes. This dict will help us convert those to be orderered
-        # from 0 to (number of threads for each process - 1) per process instead.
+        # OTF2 stores locations numbered uniquely across all processes. This dict
+        # will help us convert those to be orderered from 0 to
+        # (number of threads for each process - 1) per process instead.
         self.process_threads_map = dict()
 
         # ids are the _ref attribute of an object
@@ -412,12 +412,11 @@ class OTF2Reader:
                         )
 
                         # each process (location group) will be mapped to its
-                        # minimum location number, which we will use to number threads
-                        # appropriately by subtracting that min from its location nums
-                        if process_num not in self.process_threads_map:
-                            self.process_threads_map[process_num] = location_num
-                        elif location_num < self.process_threads_map[process_num]:
-                            self.process_threads_map[process_num] = location_num
+                        # location numbers, which we will use to number threads
+                        # (note that these numbers don't have to be contiguous)
+                        self.process_threads_map.setdefault(process_num, []).append(
+                            location_num
+                        )
 
                     if hasattr(def_object, "_ref"):
                         # only add ids for those definitions that have it
@@ -434,6 +433,13 @@ class OTF2Reader:
                     # definitions DataFrame for
                     attributes.append(self.fields_to_dict(def_object))
 
+        # number the locations of each process in increasing order
+        for process_num, location_nums in self.process_threads_map.items():
+            self.process_threads_map[process_num] = {
+                location_num: thread_num
+                for thread_num, location_num in enumerate(sorted(location_nums))
+            }
+
         # return the definitions as a DataFrame
         definitions_dataframe = pd.DataFrame(
             {"Definition Type": def_name, "ID": def_id, "Attributes": attributes}
-- 
2.43.0


From 68b221ec12163d556b440b0080296efcbe0faeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 23/52] fix: order of simultaneous OTF2 events depended on the
 number of readers

---
 pipit/readers/otf2_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 3985756..c661363 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -489,9 +489,11 @@ class OTF2Reader:
         events_dataframe["Timestamp (ns)"] -= offset
         events_dataframe["Timestamp (ns)"] *= (10**9) / resolution
 
-        # ensures the DataFrame is in order of increasing timestamp
+        # ensures the DataFrame is in order of increasing timestamp, and that
+        # the order of simultaneous events of different locations doesn't depend
+        # on the number of processes used for reading
         events_dataframe.sort_values(
-            by="Timestamp (ns)",
+            by=["Timestamp (ns)", "Process", "Thread"],
             axis=0,
             ascending=True,
             inplace=True,
-- 
2.43.0


From c0a19dbed53dbf4f72da13ace48232ed687140b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 24/52] fix: HPCToolkit context trees deeper than the recursion
 limit failed to load

---
 pipit/graph.py                     |  2 +-
 pipit/readers/hpctoolkit_reader.py | 36 +++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/pipit/graph.py b/pipit/graph.py
index 0e94063..c0530dd 100644
--- a/pipit/graph.py
+++ b/pipit/graph.py
@@ -76,7 +76,7 @@ class Node:
         if self.parent is None:
             return 0
         else:
-            return 1 + self.parent._calculate_level()
+            return 1 + self.parent.level
 
     def __eq__(self, obj) -> bool:
         if isinstance(obj, Node):
diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 508f173..d8bd8f4 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -624,14 +624,22 @@ class MetaReader:
         parent_context_id: int,
     ) -> None:
         """
-        Recursive function to read all child contexts and add it to the CCT
+        Reads all child contexts, their children, and so on, and adds them to the CCT
         """
 
-        if total_size <= 0 or context_array_pointer <= 0:
-            return
-        self.file.seek(context_array_pointer)
-        index = 0
-        while index < total_size:
+        # arrays of contexts that are still to be read, the next one on top
+        # (trees can be deeper than Python's recursion limit)
+        pending = [
+            (context_array_pointer, total_size, parent_node, parent_context_id)
+        ]
+        while pending:
+            context_array_pointer, total_size, parent_node, parent_context_id = (
+                pending.pop()
+            )
+            if total_size <= 0 or context_array_pointer <= 0:
+                continue
+            self.file.seek(context_array_pointer)
+            index = 0
             # Reading information about child contexts (as in the children of
             # this context)
             # Total size of *pChildren (I call pChildren children_pointer),
@@ -796,12 +804,18 @@ class MetaReader:
 
             self.context_map[context_id] = context
 
-            # recursively call this function to add more children
-            return_address = self.file.tell()
-            self.__read_children_contexts(
-                children_pointer, children_size, next_parent_node, context_id
+            # continue with the children of this context, and then its siblings
+            pending.append(
+                (
+                    context_array_pointer + index,
+                    total_size - index,
+                    parent_node,
+                    parent_context_id,
+                )
+            )
+            pending.append(
+                (children_pointer, children_size, next_parent_node, context_id)
             )
-            self.file.seek(return_address)
 
 
 class ProfileReader:
-- 
2.43.0


From 05d5ae18f971b04f54032e7957378cc9a333b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 25/52] fix: OTF2 locations with a truncated event file were
 silently dropped

---
 pipit/readers/otf2_reader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index c661363..2e4b7a9 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -3,6 +3,8 @@
 #
 # SPDX-License-Identifier: MIT
 
+from collections import Counter
+
 import otf2
 import numpy as np
 import pandas as pd
@@ -190,6 +192,16 @@ class OTF2Reader:
             # select the locations to read based on above calculations
             loc_events = list(trace.events(locations[begin_int:end_int]).__iter__())
 
+            # the otf2 library skips locations with an empty or truncated event
+            # file, so make sure that all of the recorded events were read
+            num_read = Counter(loc._ref for loc, _ in loc_events)
+            for loc in locations[begin_int:end_int]:
+                if num_read[loc._ref] < loc.number_of_events:
+                    raise ValueError(
+                        f"read {num_read[loc._ref]} of {loc.number_of_events} "
+                        f"events of location {loc._ref}"
+                    )
+
             # columns of the DataFrame
             timestamps, event_types, event_attributes, names = [], [], [], []
 
-- 
2.43.0


From 4aca5ac12d2b26802cd84bff513cbc5f0371a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 26/52] fix: Projections logs that are empty or not logs were
 read as if they had no entries

---
 pipit/readers/projections_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index ce87f06..07ed5d7 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -354,6 +354,10 @@ class ProjectionsReader:
                 self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
             )
 
+            # an empty or unrelated file would be read as a log without entries
+            if not log_file.readline().startswith("PROJECTIONS-RECORD"):
+                raise ValueError(f"Not a projections log file: {log_file.name}")
+
             # Basing read on projections log reader and log entry viewer
             # Iterated through every line in the file and adds to dict
             for line in log_file:
-- 
2.43.0


From 2f62c7015a67bb472851f71cbc7c348f028e7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 27/52] fix: truncated Projections sts files were loaded with
 missing or cut-off names

---
 pipit/readers/projections_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 07ed5d7..db2618e 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -133,6 +133,7 @@ class STSReader:
         return self.user_events[event_id]
 
     def read_sts_file(self):
+        complete = False
         for line in self.sts_file:
             line_arr = line.split()
 
@@ -218,8 +219,15 @@ class STSReader:
                 papi_event = line_arr[2]
                 self.papi_event_names[id] = papi_event
 
+            # last line of the file
+            elif line_arr[0] == "END":
+                complete = True
+
         self.sts_file.close()
 
+        if not complete:
+            raise ValueError(f"{self.sts_file.name} is truncated.")
+
 
 class ProjectionsReader:
     def __init__(
-- 
2.43.0


From 4fb7f8ed4526d7cd817d8d1f9803f438d07cf31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 28/52] fix: worker processes stayed behind when reading a
 trace failed

---
 pipit/readers/otf2_reader.py        | 17 +++++++++--------
 pipit/readers/projections_reader.py | 14 +++++++-------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 2e4b7a9..8af6dc7 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -473,14 +473,15 @@ class OTF2Reader:
 
         # parallelizes the reading of events
         # using the multiprocessing library
-        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)
-
-        # list of dataframes returned by the processes pool
-        events_dataframes = pool.map(
-            self.events_reader_worker, [(rank, pool_size) for rank in range(pool_size)]
-        )
-
-        pool.close()
+        pool_size = self.num_processes
+
+        # the pool is terminated also if reading fails
+        with mp.Pool(pool_size) as pool:
+            # list of dataframes returned by the processes pool
+            events_dataframes = pool.map(
+                self.events_reader_worker,
+                [(rank, pool_size) for rank in range(pool_size)],
+            )
 
         # merges the dataframe into one events dataframe
         events_dataframe = pd.concat(events_dataframes)
diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index db2618e..1d8fc37 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -297,14 +297,14 @@ class ProjectionsReader:
         if self.num_processes > self.num_pes:
             self.num_processes = self.num_pes
 
-        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)
+        pool_size = self.num_processes
 
-        # Read each log file and store as list of dataframes
-        dataframes_list = pool.map(
-            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
-        )
-
-        pool.close()
+        # the pool is terminated also if reading fails
+        with mp.Pool(pool_size) as pool:
+            # Read each log file and store as list of dataframes
+            dataframes_list = pool.map(
+                self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
+            )
 
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
-- 
2.43.0


From 8db12d837f4c8fc86d6d7318f55e0681d66fb7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 29/52] fix: detect_pattern failed unless its metric was
 computed before

---
 pipit/trace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index 0eb70fc..b70d2a0 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -828,6 +828,12 @@ class Trace:
     ):
         import stumpy
 
+        # calculate the metric if needed
+        if metric == "time.inc":
+            self.calc_inc_metrics(["Timestamp (ns)"])
+        elif metric == "time.exc":
+            self.calc_exc_metrics(["Timestamp (ns)"])
+
         enter_events = self.events[
             (self.events["Name"] == start_event)
             & (self.events["Event Type"] == "Enter")
-- 
2.43.0


From c92bb6c5aa046ab46dbc4f33f0c2acbc5c02f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 30/52] fix: detect_pattern mixed in simultaneous events of
 other processes

---
 pipit/trace.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index b70d2a0..cdb8395 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -874,11 +874,7 @@ class Trace:
         for idx in indices[0]:
             end_idx = idx + window_size
 
-            match_original = self.events.loc[
-                self.events["Timestamp (ns)"].isin(
-                    filtered_df.iloc[idx:end_idx]["Timestamp (ns)"].values
-                )
-            ]
+            match_original = self.events.loc[filtered_df.index[idx:end_idx]]
             patterns.append(match_original)
 
         return patterns
-- 
2.43.0


From e56428746efad3f08277bfa7a0e9ce5b3f93bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 31/52] fix: close a Projections computation that begins with
 the last record of a log

---
 pipit/readers/projections_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 1d8fc37..c18b737 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -807,7 +807,9 @@ class ProjectionsReader:
                     )
 
             # Making sure that the log file ends with END_COMPUTATION
-            if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
+            if len(data["Name"]) > 0 and (
+                data["Name"][-1] != "Computation" or data["Event Type"][-1] != "Leave"
+            ):
                 time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
-- 
2.43.0


From c6eb8da206720b77bcb447d2fb81c0fb89ea371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 32/52] fix: order of functions with equal means in
 load_imbalance changed from run to run

---
 pipit/trace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index cdb8395..2eca70b 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -594,8 +594,10 @@ class Trace:
         imbalance_dict[imb_ranks] = []
         imbalance_dict[mean_metric] = []
 
+        # in order of appearance, so that the order of functions with equal means
+        # does not change from one run of the interpreter to the next
         functions = list(
-            set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
+            self.events.loc[self.events["Event Type"] == "Enter"]["Name"].unique()
         )
         for function in functions:
             curr_series = flat_profile.loc[function]
-- 
2.43.0


From 6fddcee8f254a2f63703c469070ed512065f2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 33/52] fix: process ids of Nsight reports were not renumbered
 with copy-on-write in pandas

---
 pipit/readers/nsight_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index bb482ec..ae333ea 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -53,8 +53,9 @@ class NsightReader:
             # Getting the PID set, creating a dictionary,
             # and increment the values (0,1,2,...)
             pid_dict = dict(zip(pid, range(0, len(pid))))
-            # Using the dictionary to replace the Process values
-            self.df["Process"].replace(pid_dict, inplace=True)
+            # Using the dictionary to replace the Process values (not in place: a
+            # column taken out of a frame can be a copy)
+            self.df["Process"] = self.df["Process"].map(pid_dict)
         else:
             self.df["Process"] = 0
 
-- 
2.43.0


From 210ef41bad0d65ebc1cd8d2fed7d5de8044764ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 34/52] fix: export loops of HPCToolkit traces with phases the
 Chrome format has

---
 pipit/writers/chrome_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index fdc7a19..7add388 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -27,9 +27,11 @@ class ChromeWriter:
 
         # "ph" represents event type -- also called "phase"
         # Rename Enter events to "B" (begin), Leave events to "E" (end),
-        # and Instant events to "i"
+        # and Instant events to "i"; the loops of HPCToolkit traces begin and
+        # end just as functions do
         df["ph"] = events["Event Type"].replace(
-            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
+            ["Enter", "Leave", "Instant", "Loop Enter", "Loop Leave"],
+            ["B", "E", "i", "B", "E"],
         )
 
         # "ts" represents is the timestamp (in microseconds) of the event
-- 
2.43.0


From 3d4d6208a3ee1ae89ef872d6fc449e71a78af3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 35/52] fix: check the identification of HPCToolkit files also
 when assertions are off

---
 pipit/readers/hpctoolkit_reader.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index d8bd8f4..9d265f5 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -193,11 +193,13 @@ class MetaReader:
         # read Magic identifier ("HPCPROF-tracedb_")
         # first ten buyes are HPCTOOLKIT in ASCII
         identifier = str(self.file.read(10), encoding=self.encoding)
-        assert identifier == "HPCTOOLKIT"
+        if identifier != "HPCTOOLKIT":
+            raise ValueError(self.file.name + " is not an HPCToolkit file")
 
         # next 4 bytes (u8) are the "Specific format identifier"
         format_identifier = str(self.file.read(4), encoding=self.encoding)
-        assert format_identifier == "meta"
+        if format_identifier != "meta":
+            raise ValueError(self.file.name + " is not a meta.db file of HPCToolkit")
 
         # next byte (u8) contains the "Common major version, currently 4"
         self.major_version = int.from_bytes(
@@ -1006,11 +1008,13 @@ class ProfileReader:
         # read Magic identifier ("HPCPROF-tracedb_")
         # first ten buyes are HPCTOOLKIT in ASCII
         identifier = str(self.file.read(10), encoding=self.encoding)
-        assert identifier == "HPCTOOLKIT"
+        if identifier != "HPCTOOLKIT":
+            raise ValueError(self.file.name + " is not an HPCToolkit file")
 
         # next 4 bytes (u8) are the "Specific format identifier"
         format_identifier = str(self.file.read(4), encoding=self.encoding)
-        assert format_identifier == "prof"
+        if format_identifier != "prof":
+            raise ValueError(self.file.name + " is not a profile.db file of HPCToolkit")
 
         # next byte (u8) contains the "Common major version, currently 4"
         self.major_version = int.from_bytes(
@@ -1102,11 +1106,13 @@ class TraceReader:
         # read Magic identifier ("HPCPROF-tracedb_")
         # first ten buyes are HPCTOOLKIT in ASCII
         identifier = str(self.file.read(10), encoding=self.encoding)
-        assert identifier == "HPCTOOLKIT"
+        if identifier != "HPCTOOLKIT":
+            raise ValueError(self.file.name + " is not an HPCToolkit file")
 
         # next 4 bytes (u8) are the "Specific format identifier"
         format_identifier = str(self.file.read(4), encoding=self.encoding)
-        assert format_identifier == "trce"
+        if format_identifier != "trce":
+            raise ValueError(self.file.name + " is not a trace.db file of HPCToolkit")
 
         # next byte (u8) contains the "Common major version, currently 4"
         self.major_version = int.from_bytes(
-- 
2.43.0


From 86c40a3b1f6761302110576239bc5bc1ffa005f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 36/52] fix: keep integer metrics of OTF2 traces exact when a
 reading process has no events

---
 pipit/readers/otf2_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 8af6dc7..1a90764 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -483,8 +483,11 @@ class OTF2Reader:
                 [(rank, pool_size) for rank in range(pool_size)],
             )
 
-        # merges the dataframe into one events dataframe
-        events_dataframe = pd.concat(events_dataframes)
+        # merges the dataframe into one events dataframe (a dataframe without events
+        # lacks the columns of metrics, and would convert those of others to floats)
+        events_dataframe = pd.concat(
+            [df for df in events_dataframes if len(df) > 0] or events_dataframes
+        )
         del events_dataframes
 
         # accessing the clock properties of the trace using the definitions
-- 
2.43.0


From 281efff4a34772bcd93ebccd016cd029350c5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 37/52] fix: make time profiles of traces with times since the
 epoch exact

---
 pipit/trace.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 2eca70b..8b7cfde 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -668,11 +668,15 @@ class Trace:
         events = self.events[self.events["Event Type"] == "Enter"].copy(deep=False)
         names = events["Name"].unique().tolist()
 
+        # Use times since the start of the trace: times since the epoch have more
+        # digits than floats can hold
+        trace_start = self.events["Timestamp (ns)"].min()
+        events["Timestamp (ns)"] = events["Timestamp (ns)"] - trace_start
+        events["_matching_timestamp"] = events["Timestamp (ns)"] + events["time.inc"]
+
         # Create equal-sized bins
         edges = np.linspace(
-            self.events["Timestamp (ns)"].min(),
-            self.events["Timestamp (ns)"].max(),
-            num_bins + 1,
+            0, self.events["Timestamp (ns)"].max() - trace_start, num_bins + 1
         )
         bin_size = edges[1] - edges[0]
 
@@ -775,8 +779,8 @@ class Trace:
             df /= total_bin_duration
 
         # Add bin_start and bin_end
-        df.insert(0, "bin_start", edges[:-1])
-        df.insert(0, "bin_end", edges[1:])
+        df.insert(0, "bin_start", edges[:-1] + trace_start)
+        df.insert(0, "bin_end", edges[1:] + trace_start)
 
         return df
 
-- 
2.43.0


From f6b37513babd6b3012c1ace03ba0b2f27e197d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 38/52] fix: keep integer times of matching events exact

---
 pipit/trace.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 8b7cfde..931a77b 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -115,7 +115,7 @@ class Trace:
 
         if "_matching_event" not in self.events.columns:
             matching_events = [float("nan")] * len(self.events)
-            matching_times = [float("nan")] * len(self.events)
+            matching_times = [None] * len(self.events)
 
             # only pairing enter and leave rows
             enter_leave_df = self.events.loc[
@@ -191,7 +191,15 @@ class Trace:
                             continue
 
             self.events["_matching_event"] = matching_events
-            self.events["_matching_timestamp"] = matching_times
+            # (integers are kept as they are, floats can't hold times since the epoch)
+            self.events["_matching_timestamp"] = pd.array(
+                matching_times,
+                dtype=(
+                    "Int64"
+                    if pd.api.types.is_integer_dtype(self.events["Timestamp (ns)"])
+                    else "float64"
+                ),
+            )
 
             self.events = self.events.astype({"_matching_event": "Int32"})
 
-- 
2.43.0


From 3050d264f31bcc999eabd33eb6ea6b9cd7dc6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 39/52] fix: keep differences of unsigned and short integer
 metrics from wrapping around

---
 pipit/trace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 931a77b..e4901ac 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -333,13 +333,18 @@ class Trace:
                 # calculate the inclusive metric by subtracting
                 # the values at the enter rows from the values
                 # at the corresponding leave rows
+                values = self.events[col]
+                if isinstance(values.dtype, np.dtype) and values.dtype.kind in "iu":
+                    # differences of unsigned or short integers can wrap around
+                    values = values.astype("int64")
+
                 self.events.loc[
                     (self.events["_matching_event"].notnull())
                     & (self.events["Event Type"] == "Enter"),
                     metric_col_name,
                 ] = (
-                    self.events[col][enter_df["_matching_event"]].values
-                    - enter_df[col].values
+                    values[enter_df["_matching_event"]].values
+                    - values[enter_df.index].values
                 )
 
                 self.inc_metrics.append(metric_col_name)
-- 
2.43.0


From 1adea8371f8a3d40e85907797fae300d78b123d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 40/52] fix: keep microseconds of Chrome exports exact for
 times since the epoch

---
 pipit/writers/chrome_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index 7add388..cb485e8 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -35,7 +35,7 @@ class ChromeWriter:
         )
 
         # "ts" represents is the timestamp (in microseconds) of the event
-        df["ts"] = (events["Timestamp (ns)"] / 1e3).astype(int)
+        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
 
         # "pid" represents the process ID for the process that the event occurs in
         df["pid"] = events["Process"]
-- 
2.43.0


From f9b115ae6d6b4e39e1c6fe54b33848220dce3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 41/52] fix: let ranks without events receive messages in the
 communication matrix

---
 pipit/trace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index e4901ac..4fdfb3a 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -416,10 +416,6 @@ class Trace:
         # (mpi messages are sent between processes)
         ranks = set(self.events["Process"])
 
-        # create a 2d numpy array that will be returned
-        # at the end of the function
-        communication_matrix = np.zeros(shape=(len(ranks), len(ranks)))
-
         # filter the dataframe by MPI Send and Isend events
         sender_dataframe = self.events.loc[
             self.events["Name"].isin(["MpiSend", "MpiIsend"]),
@@ -438,6 +434,12 @@ class Trace:
             .to_list()
         )
 
+        # create a 2d numpy array that will be returned
+        # at the end of the function
+        # (ranks without events in the trace can still receive messages)
+        num_ranks = max([len(ranks) - 1, *sender_ranks, *receiver_ranks]) + 1
+        communication_matrix = np.zeros(shape=(num_ranks, num_ranks))
+
         # the length of the message_volume list created below
         # is the total number of messages sent
 
-- 
2.43.0


From 60a301b9f5dd0b19061ae70a57b93a59edfc51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 42/52] fix: keep all digits of floats in the attributes of
 Chrome exports

---
 pipit/writers/chrome_writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index cb485e8..2229114 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -48,5 +48,8 @@ class ChromeWriter:
         if "Attributes" in events.columns:
             df["args"] = events["Attributes"]
 
-        # Write the dataframe to a JSON file
-        return df.to_json(path_or_buf=self.filename, orient="records")
+        # Write the dataframe to a JSON file (by default, attributes that are
+        # floats would be rounded to ten decimals)
+        return df.to_json(
+            path_or_buf=self.filename, orient="records", double_precision=15
+        )
-- 
2.43.0


From 10474082511382188f1ad98f6aa6ad9dd5135acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 43/52] fix: read decimal numbers of CSV files in all their
 digits

---
 pipit/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 4fdfb3a..850f1e8 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -68,7 +68,10 @@ class Trace:
 
     @staticmethod
     def from_csv(filename):
-        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
+        # (the default parser of floats drops digits of small numbers)
+        events_dataframe = pd.read_csv(
+            filename, skipinitialspace=True, float_precision="round_trip"
+        )
 
         # if timestamps are in seconds, convert them to nanoseconds
         if "Timestamp (s)" in events_dataframe.columns:
-- 
2.43.0


From 4d3b0376b0afcd44dd52534b3e52896999a437f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 44/52] fix: read Projections traces as UTF-8 whatever the
 locale is

---
 pipit/readers/projections_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index c18b737..654551f 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -83,7 +83,8 @@ class ProjectionsConstants:
 
 class STSReader:
     def __init__(self, file_location):
-        self.sts_file = open(file_location, "r")  # self.chares = {}
+        # (the encoding of the file doesn't depend on the locale of the reader)
+        self.sts_file = open(file_location, "r", encoding="utf-8")  # self.chares = {}
 
         # In 'self.entries', each entry stores (entry_name: str, chare_id: int)
         self.entries = {}
@@ -359,7 +360,9 @@ class ProjectionsReader:
 
             # opening the log file we need to read
             log_file = gzip.open(
-                self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
+                self.executable_location + "." + str(pe_num) + ".log.gz",
+                "rt",
+                encoding="utf-8",
             )
 
             # an empty or unrelated file would be read as a log without entries
-- 
2.43.0


From 9e7f388c00145a68a7fc088390dfbce38de153f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 45/52] fix: close Projections computations after the last
 record that has a time

---
 pipit/readers/projections_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 654551f..65aa644 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -813,7 +813,9 @@ class ProjectionsReader:
             if len(data["Name"]) > 0 and (
                 data["Name"][-1] != "Computation" or data["Event Type"][-1] != "Leave"
             ):
-                time = data["Timestamp (ns)"][-1]
+                # (user supplied values don't have a time)
+                times = [time for time in data["Timestamp (ns)"] if time >= 0]
+                time = times[-1] if len(times) > 0 else -1
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From 29f3ed9b65a7380de756ca82b093e2dd9a075f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 46/52] fix: read names in CSV files as text

---
 pipit/trace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 850f1e8..0c9f65f 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -68,9 +68,13 @@ class Trace:
 
     @staticmethod
     def from_csv(filename):
-        # (the default parser of floats drops digits of small numbers)
+        # (the default parser of floats drops digits of small numbers, and names of
+        # functions are text also if they look like numbers or missing values)
         events_dataframe = pd.read_csv(
-            filename, skipinitialspace=True, float_precision="round_trip"
+            filename,
+            skipinitialspace=True,
+            float_precision="round_trip",
+            converters={"Name": str},
         )
 
         # if timestamps are in seconds, convert them to nanoseconds
-- 
2.43.0


From 0f047d841018a8466ea298bca163ecde2b9ae48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 47/52] fix: read names in Nsight reports as text

---
 pipit/readers/nsight_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index ae333ea..c33006e 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -22,8 +22,9 @@ class NsightReader:
         utilizes pandas to convert it from a csv into a dataframe.
         """
 
-        # Read in csv
-        self.df = pd.read_csv(self.file_name)
+        # Read in csv (the names of ranges are text also if they look like numbers
+        # or missing values)
+        self.df = pd.read_csv(self.file_name, converters={"Name": str})
 
         # Grab the set of the column PID columns to see if
         # mutliprocess and convert to a list
-- 
2.43.0


From 6c835694444034e11675150698a9448967191055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 48/52] fix: communication matrix takes receivers as ranks of
 the communicator, which can be any of the processes

---
 pipit/trace.py | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 0c9f65f..de96984 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -435,10 +435,8 @@ class Trace:
 
         # get the corresponding mpi ranks of the receivers
         # the length of the list is the total number of messages sent
-        receiver_ranks = (
-            sender_dataframe["Attributes"]
-            .apply(lambda attrDict: attrDict["receiver"])
-            .to_list()
+        receiver_ranks = self._get_receivers(
+            sender_ranks, sender_dataframe["Attributes"].to_list()
         )
 
         # create a 2d numpy array that will be returned
@@ -475,6 +473,45 @@ class Trace:
 
         return communication_matrix
 
+    def _get_receivers(self, senders, attributes):
+        """
+        Returns the list of processes that receive the messages with the given
+        senders and attributes. OTF2 traces record receivers as ranks within a
+        communicator, which consists of any of the processes in any order.
+        """
+        definitions = dict()
+        if self.definitions is not None:
+            for kind, ref, attrs in zip(
+                self.definitions["Definition Type"],
+                self.definitions["ID"],
+                self.definitions["Attributes"],
+            ):
+                if kind in ["Comm", "Group", "Location"]:
+                    definitions[f"{kind} {int(ref)}"] = attrs
+
+        # maps each communicator to the list of its processes
+        members = dict()
+        for name, comm in definitions.items():
+            if name.startswith("Comm ") and comm["group"] in definitions:
+                members[name] = [
+                    int(definitions[member]["group"].split(" ")[-1])
+                    for member in definitions[comm["group"]]["members"]
+                    if member in definitions
+                ]
+
+        receivers = []
+        for sender, attrs in zip(senders, attributes):
+            receiver, comm = attrs["receiver"], attrs.get("communicator")
+            if comm not in members:
+                receivers.append(receiver)
+            elif len(members[comm]) == 0:
+                # the communicator of a process with itself doesn't list members
+                receivers.append(sender)
+            else:
+                receivers.append(members[comm][receiver])
+
+        return receivers
+
     def message_histogram(self, bins=20, **kwargs):
         """Generates histogram of message frequency by size."""
 
-- 
2.43.0


From 4e198217b24f826a6f36e98b504dc327c0b76a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 49/52] fix: communication analyses of traces without
 attributes find no messages instead of failing

---
 pipit/trace.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index de96984..7406bc6 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -424,10 +424,10 @@ class Trace:
         ranks = set(self.events["Process"])
 
         # filter the dataframe by MPI Send and Isend events
+        # (traces of formats without messages don't have attributes)
         sender_dataframe = self.events.loc[
-            self.events["Name"].isin(["MpiSend", "MpiIsend"]),
-            ["Process", "Attributes"],
-        ]
+            self.events["Name"].isin(["MpiSend", "MpiIsend"])
+        ].reindex(columns=["Process", "Attributes"])
 
         # get the mpi ranks of all the sender processes
         # the length of the list is the total number of messages sent
@@ -519,7 +519,9 @@ class Trace:
         messages = self.events[self.events["Name"].isin(["MpiSend", "MpiIsend"])]
 
         # Get message sizes
-        sizes = messages["Attributes"].map(lambda x: x["msg_length"])
+        # (traces of formats without messages don't have attributes)
+        attributes = messages.reindex(columns=["Attributes"])["Attributes"]
+        sizes = attributes.map(lambda x: x["msg_length"])
 
         return np.histogram(sizes, bins=bins, **kwargs)
 
@@ -550,8 +552,10 @@ class Trace:
         ]
 
         # Get timestamps and sizes
+        # (traces of formats without messages don't have attributes)
         timestamps = events["Timestamp (ns)"]
-        sizes = events["Attributes"].apply(lambda x: x["msg_length"])
+        attributes = events.reindex(columns=["Attributes"])["Attributes"]
+        sizes = attributes.apply(lambda x: x["msg_length"])
 
         return np.histogram(
             timestamps,
-- 
2.43.0


From 14081987959d69f332d7af16bada3b61b9eef39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 50/52] fix: communication over time of a trace without events
 is empty instead of an error

---
 pipit/trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index 7406bc6..2dbee08 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -551,6 +551,10 @@ class Trace:
             )
         ]
 
+        # an empty trace doesn't have an extent
+        if len(self.events) == 0:
+            return np.histogram([], bins=bins, **kwargs)
+
         # Get timestamps and sizes
         # (traces of formats without messages don't have attributes)
         timestamps = events["Timestamp (ns)"]
-- 
2.43.0


From 5a786a1fbe747873f6a8249533b61d658e31de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 51/52] fix: HPCToolkit traces without samples keep their
 columns

---
 pipit/readers/hpctoolkit_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 9d265f5..000794a 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -1410,5 +1410,8 @@ class HPCToolkitReader:
 
         # cct is needed to create trace in hpctoolkit,
         # so always return it as part of the trace
-        self.trace_df = trace_df.dropna(axis=1, how="all")
+        # (without events, no column has values, but all of them are needed)
+        self.trace_df = (
+            trace_df.dropna(axis=1, how="all") if len(trace_df) > 0 else trace_df
+        )
         return pipit.trace.Trace(None, self.trace_df, self.meta_reader.cct)
-- 
2.43.0


From de6003f0bf5de4a3b723747c463a4a5bbb77044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 52/52] fix: process numbers of Projections traces stay
 integers if a processor has no records

---
 pipit/readers/projections_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 65aa644..6bf27fa 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -307,6 +307,11 @@ class ProjectionsReader:
                 self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
             )
 
+        # (dataframes without events would convert the process numbers to floats)
+        dataframes_list = [df for df in dataframes_list if len(df) > 0] or (
+            dataframes_list
+        )
+
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
@@ -821,6 +826,8 @@ class ProjectionsReader:
             log_file.close()
             dfs.append(pd.DataFrame(data))
 
+        # (without the empty ones, see above)
+        dfs = [df for df in dfs if len(df) > 0] or dfs
         return pd.concat(dfs)
 
 
-- 
2.43.0

