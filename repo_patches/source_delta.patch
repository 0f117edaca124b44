From 84a1812298a6dfcca0c0d03cc7592ce2d872d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 01/42] fix: data_aligned_at_events: keep last event and no
 empty chunk with index speedup

With try_speedup and the stop event number part of the data, the last event of
the requested range was dropped when the range was not read at once, and an
empty chunk was handed out for an empty range.
---
 beam_telescope_analysis/tools/analysis_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..f6d4709 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -524,7 +524,8 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
                 stop_index_known = True
 
     if start_index_known and stop_index_known and start_index + chunk_size >= stop_index:  # special case, one read is enough, data not bigger than one chunk and the indices are known
-        yield table.read(start=start_index, stop=stop_index), stop_index
+        if start_index < stop_index:
+            yield table.read(start=start_index, stop=stop_index), stop_index
     else:  # read data in chunks, chunks do not divide events, abort if stop_event_number is reached
 
         # search for begin
@@ -584,7 +585,9 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
 
             chunk_start_index = 0
 
-            if stop_event_number is None:
+            if stop_index_known and current_stop_index == stop_index:  # stop index is known to be the end of an event
+                chunk_stop_index = array_chunk.shape[0]
+            elif stop_event_number is None:
                 if current_stop_index == table_max_rows:
                     chunk_stop_index = array_chunk.shape[0]
                 else:
-- 
2.43.0


From 47b430657d82c17ed58eeaa82b014edff38484e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 02/42] fix: handle empty event number arrays in the compiled
 helpers

Empty arrays made the helpers read outside of the arrays (usually a crash).
---
 beam_telescope_analysis/cpp/AnalysisFunctions.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..fa8c637 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -22,6 +22,8 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	unsigned int tActualResultIndex = 0;
+	if (rSizeArrayTwo == 0)  // nothing in common
+		return 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
 		if (rEventArrayOne[i] == tActualEventNumber)  // omit the same event number occuring again
 			continue;
@@ -43,6 +45,14 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
+	if (rSizeArrayOne == 0 || rSizeArrayTwo == 0) {  // only event numbers of one array
+		const unsigned int tSize = rSizeArrayOne + rSizeArrayTwo;
+		if (tSize > rSizeArrayResult)
+			throw std::out_of_range("The result histogram is too small. Increase size.");
+		for (unsigned int k = 0; k < tSize; ++k)
+			result[k] = (rSizeArrayOne == 0) ? rEventArrayTwo[k] : rEventArrayOne[k];
+		return tSize;
+	}
 	int64_t tFirstActualEventNumber = rEventArrayOne[0];
 	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
 	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
@@ -126,7 +136,6 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
@@ -137,7 +146,7 @@ void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, in
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber)
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber)
 			rSelection[i] = 1;
 		else
 			rSelection[i] = 0;
-- 
2.43.0


From 6c919c26c5df790f0c6beffc85f25ba8d3499904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 03/42] fix: merge_cluster_data: keep clusters after the last
 event of the first DUT

---
 beam_telescope_analysis/hit_analysis.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..933f1be 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1612,15 +1612,26 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
         with tb.open_file(input_cluster_files[0], mode='r') as in_file_h5:  # Open DUT0 cluster file
             pbar = tqdm(total=in_file_h5.root.Clusters.shape[0], ncols=80)
 
-            for actual_cluster_dut_0, start_indices_data_loop[0] in analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size):  # Loop over the cluster of DUT0 in chunks
+            n_clusters_dut_0 = in_file_h5.root.Clusters.shape[0]
+            if n_clusters_dut_0 > 0:
+                chunks_dut_0 = analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size)
+            else:  # DUT0 has no cluster, the other DUTs still have to be merged
+                chunks_dut_0 = [(in_file_h5.root.Clusters[:], 0)]
+            for actual_cluster_dut_0, start_indices_data_loop[0] in chunks_dut_0:  # Loop over the cluster of DUT0 in chunks
                 actual_event_numbers = actual_cluster_dut_0['event_number']
+                if start_indices_data_loop[0] >= n_clusters_dut_0:  # Last chunk: include all events after the last event of DUT0
+                    actual_stop_event_number = None
+                else:
+                    actual_stop_event_number = actual_event_numbers[-1] + 1
 
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
+                if common_event_numbers.shape[0] == 0:  # No cluster at all
+                    continue
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
                 # set default values
-- 
2.43.0


From df9442fdbb0cd568921529ac5e07518e570cd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 04/42] fix: SMC: raise exceptions of the threads, handle empty
 tables, growing multi-dimensional histograms

---
 beam_telescope_analysis/tools/smc.py | 42 +++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..4a1bce7 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -158,10 +158,20 @@ class SMC(object):
         self.force_stop = Event()
         self.data_deque = deque()
         self.res_deque = deque()
+        self.exceptions = deque()  # exceptions raised in the threads
         self.reader_thread = None
         # compute data
         self.split_map_combine()
 
+    def _run_thread(self, target):
+        ''' Run thread function, stop all other threads if an exception occurs.
+        '''
+        try:
+            target()
+        except Exception as e:
+            self.exceptions.append(e)
+            self.force_stop.set()
+
     def _reader(self):
         if self.input_filename == self.output_filename:
             # wait for output file to be ready
@@ -179,7 +189,10 @@ class SMC(object):
         except Exception:
             self.force_stop.set()
             raise
-        gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
+        if node.nrows == 0:  # apply function once to the empty table
+            gen_data = iter([(node[:], 0)])
+        else:
+            gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
         while not self.force_stop.wait(0.01):
             try:
                 try:
@@ -290,11 +303,12 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    if np.any(new_shape > hists[i].shape):
+                        new_hist = np.zeros(new_shape, dtype=hists[i].dtype)
+                        new_hist[tuple(slice(n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = new_hist
+                    # Add array to result
+                    hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
@@ -331,15 +345,15 @@ class SMC(object):
 
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run_thread, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run_thread, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run_thread, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -352,10 +366,18 @@ class SMC(object):
         self.writer_thread.join()
         self.writer_thread = None
 
-        self.pool.close()
+        if self.exceptions:
+            self.pool.terminate()
+        else:
+            self.pool.close()
         self.pool.join()
         self.pool = None
 
+        if self.exceptions:
+            if self.out_file is not None and self.out_file.isopen:
+                self.out_file.close()
+            raise self.exceptions[0]
+
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From 4a6a7cc8ee8063da21682541c94050ab5de86b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 05/42] fix: cluster_hits: copy results of the clusterizer,
 handle empty tables, seed positions as float

---
 beam_telescope_analysis/hit_analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 933f1be..af3a33a 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -993,8 +993,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
             ('n_hits', '<u4'),
             ('charge', '<f4'),
             ('frame', '<u2'),
-            ('seed_x', '<u2'),
-            ('seed_y', '<u2'),
+            ('seed_x', '<f8'),
+            ('seed_y', '<f8'),
             ('mean_x', '<f8'),
             ('mean_y', '<f8')])
     else:
@@ -1094,6 +1094,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 else:
                     new_cluster_hits[name] = cluster_hits[name]
             cluster_hits = new_cluster_hits
+        # copy data, the arrays are views on the internal buffers of the clusterizer which are used again for the next chunk
+        cluster_hits, clusters = cluster_hits.copy(), clusters.copy()
         return cluster_hits, clusters  # return hits array with additional columns for cluster ID, and cluster array
 
     smc.SMC(
@@ -1115,7 +1117,7 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
     # Calculate cluster size histogram
     def cluster_size_hist_func(clusters):
         n_hits = clusters['n_hits']
-        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits) + 1,))
+        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits, initial=0) + 1,))
         return hist
 
     smc.SMC(
-- 
2.43.0


From 25a7d396cb92fee15c66417e841d95fe15ec35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 06/42] fix: cluster_hits: use positions and not indices if the
 hit table has both

---
 beam_telescope_analysis/hit_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index af3a33a..0899c21 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1079,8 +1079,12 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         else:
+            if copy_hit_indices:  # the clusterizer uses the names column/row for x/y internally
+                position_hits = hits[[name for name in hits.dtype.names if name not in ('column', 'row')]]
+            else:
+                position_hits = hits
             cluster_hits, clusters = clusterizer.cluster_hits(
-                hits=hits,
+                hits=position_hits,
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         if copy_hit_indices:
-- 
2.43.0


From 2f4d809fb65f5a2a23e50238d53441fac5f8625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:35 +0000
Subject: [PATCH 07/42] fix: cluster_hits: do not share the data type with the
 buffers of the clusterizer

---
 beam_telescope_analysis/hit_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 0899c21..53c6cfc 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1098,8 +1098,9 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 else:
                     new_cluster_hits[name] = cluster_hits[name]
             cluster_hits = new_cluster_hits
-        # copy data, the arrays are views on the internal buffers of the clusterizer which are used again for the next chunk
-        cluster_hits, clusters = cluster_hits.copy(), clusters.copy()
+        # copy data and data type, the arrays are views on the internal buffers of the clusterizer which are used again for the next chunk
+        cluster_hits = cluster_hits.astype(np.dtype(cluster_hits.dtype.descr))
+        clusters = clusters.astype(np.dtype(clusters.dtype.descr))
         return cluster_hits, clusters  # return hits array with additional columns for cluster ID, and cluster array
 
     smc.SMC(
-- 
2.43.0


From cf748b6d58565d1100dedea363018c53caf7f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 08/42] fix: hit analysis: use files and DUTs in the order of
 the selection, reject DUT index behind the last DUT

---
 beam_telescope_analysis/hit_analysis.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 53c6cfc..1a26b51 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -62,11 +62,12 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -211,11 +212,12 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -466,11 +468,12 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -706,11 +709,12 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
@@ -1281,7 +1285,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Correlating %d DUTs ===', len(select_duts))
 
-- 
2.43.0


From 53a10d7615b70b1eeba5dbc28226edd3a7dcb92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 09/42] fix: SMC: close the input file if reading fails

---
 beam_telescope_analysis/tools/smc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 4a1bce7..114d927 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -153,6 +153,7 @@ class SMC(object):
         self.reader_thread = None
         self.async_worker_thread = None
         self.writer_thread = None
+        self.in_file = None
         self.out_file = None
         self.out_file_opened = Event()
         self.force_stop = Event()
@@ -181,6 +182,7 @@ class SMC(object):
         else:
             try:
                 in_file = tb.open_file(self.input_filename, mode='r')
+                self.in_file = in_file
             except Exception:
                 self.force_stop.set()
                 raise
@@ -374,8 +376,9 @@ class SMC(object):
         self.pool = None
 
         if self.exceptions:
-            if self.out_file is not None and self.out_file.isopen:
-                self.out_file.close()
+            for h5_file in (self.in_file, self.out_file):
+                if h5_file is not None and h5_file.isopen:
+                    h5_file.close()
             raise self.exceptions[0]
 
 
-- 
2.43.0


From 899ad643bd596ed98faaf4a0c963d1ec2a235857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 10/42] fix: find_tracks: allow empty list of DUTs for
 extrapolation

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..743db3e 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import njit, int64
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    typed_select_extrapolation_duts = List.empty_list(int64)  # the list can be empty
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From 09e51419904e316649a08650ddcafbd87ff37c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 11/42] fix: find_tracks: do not permute the columns of DUT1
 together with those of DUT10 and higher

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 743db3e..7f9483b 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -287,7 +287,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From 8cc48158c5dd756f139a7ea99695fc1bb52bc387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 12/42] fix: find_tracks: align the planes to the beam as the
 hits

---
 beam_telescope_analysis/track_analysis.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 7f9483b..10f53fb 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -256,13 +256,21 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                     x_global.append(x_global_dut)
                     y_global.append(y_global_dut)
                     z_global.append(z_global_dut)
-                    translation.append([dut.translation_x, dut.translation_y, dut.translation_z])
+                    dut_translation = np.array([dut.translation_x, dut.translation_y, dut.translation_z], dtype=np.float64)
                     dut_rotation_matrix = geometry_utils.rotation_matrix(
                         alpha=dut.rotation_alpha,
                         beta=dut.rotation_beta,
                         gamma=dut.rotation_gamma)
                     basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
                     dut_normal = basis_global[2]
+                    if align_to_beam:  # use the same coordinate system as for the hits
+                        telescope_rotation_matrix = geometry_utils.rotation_matrix(
+                            alpha=telescope.rotation_alpha,
+                            beta=telescope.rotation_beta,
+                            gamma=telescope.rotation_gamma)
+                        dut_translation = telescope_rotation_matrix.dot(dut_translation) + np.array([telescope.translation_x, telescope.translation_y, telescope.translation_z], dtype=np.float64)
+                        dut_normal = telescope_rotation_matrix.dot(dut_normal)
+                    translation.append(dut_translation)
                     dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
                     if dut_normal[2] < 0:
                         dut_normal = -dut_normal
-- 
2.43.0


From d0b2163a1773a2e289b6fa430ef6c8016efbb900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 13/42] fix: fit_tracks: keep_data used undefined names and
 dropped chunks without selected tracks

---
 beam_telescope_analysis/track_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 10f53fb..9e4c95e 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -895,7 +895,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
                     unique_events = np.unique(track_candidates_chunk["event_number"][select_tracks_for_storage])
                     n_events_chunk = unique_events.shape[0]
-                    if n_events_chunk == 0:
+                    if n_events_chunk == 0 and not keep_data:
                         continue
 
                     if max_events:
@@ -1406,9 +1406,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From 15b711ebccbee4d10e4e53f5980f6c1fcfc0e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:51 +0000
Subject: [PATCH 14/42] fix: Kalman filter: improved track seed depended on the
 order of the planes in the configuration

---
 beam_telescope_analysis/tools/kalman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..7ea9ba9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,7 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        track_seed = reference_states[:, z_sorted_dut_indices[0], :] + filtered_states_b[:, z_sorted_dut_indices[0], :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +842,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +851,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From 49ad024f3a658b9d5bd24c467a16cf1d8a244890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 15/42] fix: Kalman smoother: combine forward filter with
 backward prediction, the hit of a plane was used twice

---
 beam_telescope_analysis/tools/kalman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 7ea9ba9..595a174 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -907,9 +907,9 @@ class KalmanFilter(object):
                 elif i == len(z_sorted_dut_indices) - 1:  # Last plane: Use forward filter result
                     smoothed_states[:, dut_index] = filtered_states_f[:, dut_index]
                     smoothed_state_covariances[:, dut_index] = filtered_state_covariances_f[:, dut_index]
-                else:  # Calculate weigted mean of backward and forward filter result
-                    xb = filtered_states_b[:, dut_index]
-                    Cb = filtered_state_covariances_b[:, dut_index]
+                else:  # Calculate weigted mean of backward prediction and forward filter result (the hit of this plane must be used only once)
+                    xb = predicted_states_b[:, dut_index]
+                    Cb = predicted_state_covariances_b[:, dut_index]
                     xf = filtered_states_f[:, dut_index]
                     Cf = filtered_state_covariances_f[:, dut_index]
                     Cf_inv = _mat_inverse(Cf)
-- 
2.43.0


From fcacbf9a3483472a6fc5eb588b14fe0ba942860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 16/42] fix: Kalman filter: no annealing factor for scattering
 planes

---
 beam_telescope_analysis/track_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 9e4c95e..531523d 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1623,6 +1623,8 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
 
     if scattering_planes:
         track_hits = np.append(arr=track_hits, values=np.full((track_hits.shape[0], len(scattering_planes), track_hits.shape[2]), fill_value=np.nan, dtype=np.float64), axis=1)
+        # no annealing for scattering planes
+        alpha = np.append(alpha, np.ones(len(scattering_planes)))
 
     chunk_size = track_hits.shape[0]
     n_duts = len(all_dut_planes)
-- 
2.43.0


From 29c95fac0f5744a7b710ffbd1566dcc37b4d005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 17/42] fix: Kalman filter: allow scattering planes in front of
 the first DUT

---
 beam_telescope_analysis/telescope/dut.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/telescope/dut.py b/beam_telescope_analysis/telescope/dut.py
index ff59691..cfd0e27 100644
--- a/beam_telescope_analysis/telescope/dut.py
+++ b/beam_telescope_analysis/telescope/dut.py
@@ -577,6 +577,10 @@ class ScatteringPlane(Dut):
     def __init__(self, name, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma, x_limit=None, y_limit=None, material_budget=None, intrinsic_resolution=None):
         super(ScatteringPlane, self).__init__(name=name, translation_x=translation_x, translation_y=translation_y, translation_z=translation_z, rotation_alpha=rotation_alpha, rotation_beta=rotation_beta, rotation_gamma=rotation_gamma, x_limit=x_limit, y_limit=y_limit, material_budget=material_budget, intrinsic_resolution=intrinsic_resolution)
 
+    # the transformations only depend on the position of the plane
+    local_to_global_position = RectangularPixelDut.local_to_global_position
+    global_to_local_position = RectangularPixelDut.global_to_local_position
+
 
 class Diamond3DpCVD(FEI4):
     dut_attributes = ["name", "translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma", "x_limit", "y_limit", "material_budget", "intrinsic_resolution", "sensor_position"]
-- 
2.43.0


From 8127d2463b6d70d0fd1f678fb76affd31c28a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 18/42] fix: select_tracks: query failed, column names are not
 visible to numexpr and parts of numbers were taken as names

---
 beam_telescope_analysis/tools/data_selection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..246b965 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -479,7 +478,6 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    variables = {name: arr[name] for name in arr.dtype.names}  # expose columns; not a copy, this is just a reference
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=variables, global_dict={}, casting="safe")]
-- 
2.43.0


From 125dd1d87204346e9165e518eb585dcbccfee5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 19/42] fix: select_tracks: division by zero in the summary if
 there is no selection or nothing is selected

---
 beam_telescope_analysis/tools/data_selection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 246b965..0d83f80 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -472,7 +472,14 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                # no division by zero if there is no selection or nothing is selected
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % tuple(100.0 * n_selected / n_all if n_all else 0.0 for n_selected, n_all in [
+                    (n_tracks_query, total_n_tracks),
+                    (n_tracks_hit_mask, total_n_tracks),
+                    (n_tracks_quality_mask, n_tracks_hit_mask),
+                    (n_tracks_iso_track_mask, n_tracks_quality_mask),
+                    (n_tracks_iso_hit_mask, n_tracks_iso_track_mask),
+                    (n_tracks_query, n_tracks_iso_hit_mask)]))
 
     return output_tracks_file
 
-- 
2.43.0


From da03e7c9217fae02296d1cb2cde6a2651364bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 20/42] fix: maximum number of events: division by zero if it
 is reached before the last chunk

---
 beam_telescope_analysis/tools/data_selection.py | 8 ++++----
 beam_telescope_analysis/track_analysis.py       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 0d83f80..9917a37 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -160,8 +160,8 @@ def reduce_events(input_file, max_events, output_file=None, chunk_size=1000000):
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                     else:
                         # calculate correction of number of selected events
-                        correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                            + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                        correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                            + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks) * correction))
                     # do not store more events than in current chunk
                     select_n_events = min(n_events_chunk, select_n_events)
@@ -442,8 +442,8 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                         else:
                             # calculate correction of number of selected events
-                            correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                                + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                            correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                                + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                             # select_n_events = np.ceil(n_events_chunk * correction)
                             # calculate correction of number of selected events
                             # correction = 1/(((total_n_tracks-last_index_chunk)/total_n_tracks_last)/((max_events-total_n_events_stored_last)/max_events))
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 531523d..fce0e40 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -215,8 +215,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                     else:
                         # calculate correction of number of selected events
-                        correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                            + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                        correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                            + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks) * correction))
                     # do not store more events than in current chunk
                     select_n_events = min(n_events_chunk, select_n_events)
@@ -905,8 +905,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                         else:
                             # calculate correction of number of selected events
-                            correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                                + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                            correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                                + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                             # select_n_events = np.ceil(n_events_chunk * correction)
                             # calculate correction of number of selected events
                             # correction = 1/(((total_n_tracks-last_index_chunk)/total_n_tracks_last)/((max_events-total_n_events_stored_last)/max_events))
-- 
2.43.0


From 69baacaff023b9b4f3f1a5a49b0b70e76a51bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 21/42] fix: combine_files: allow empty tables

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 9917a37..758a108 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -99,7 +99,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows > 0:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From 14f52f283cbee469cb1d310333e6ac95654ea376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 22/42] fix: lines parallel to a plane get nan as intersection,
 as documented, instead of a bare raise

---
 beam_telescope_analysis/tools/geometry_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..3f9b3bf 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -129,7 +129,6 @@ def get_line_intersections_with_plane(line_origins, line_directions, position_pl
 
     # Warn if some intersection cannot be calculated
     if np.any(norm_dot_dir == 0):
-        raise
         logging.warning('Some line plane intersection could not be calculated')
 
     # Calculate t scalar for each line simultaniously, avoid division by 0
-- 
2.43.0


From 7045c68421db3114b362d52b2090c1ff088970f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 23/42] fix: Euler angles in case of gimbal lock (unbound
 names, rounding errors)

---
 beam_telescope_analysis/tools/geometry_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 3f9b3bf..b01f571 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -323,11 +323,12 @@ def euler_angles(R):
     if not is_rotation_matrix(R):
         raise ValueError("%s is not a rotation matrix" % str(R))
 
-    if R[2, 0] == -1:
+    # close to the gimbal lock the entries of the other angles are lost in rounding errors
+    if R[2, 0] <= -1.0 + 1e-12:
         gamma = 0.0  # gimbal lock
         alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
         beta = np.pi / 2
-    elif R[2, 0] == 1:
+    elif R[2, 0] >= 1.0 - 1e-12:
         gamma = 0.0  # gimbal lock
         alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
         beta = -np.pi / 2
@@ -354,7 +355,8 @@ def euler_angles(R):
         #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
         # else:
         #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha_1, beta_1, gamma_1
+        alpha, beta, gamma = alpha_1, beta_1, gamma_1
+    return alpha, beta, gamma
 
 
 def translation_matrix(x, y, z):
-- 
2.43.0


From 22a26c28a9adac05d5bc542bd71700398734b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 24/42] fix: azimuth of positions with x = 0

---
 beam_telescope_analysis/tools/geometry_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b01f571..7c000af 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -156,11 +156,12 @@ def cartesian_to_spherical(x, y, z):
     Spherical coordinates phi, theta and r.
     '''
     r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = y = 0
     theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
     # Avoid division by zero
     # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    sel = (x != 0) | (y != 0)
+    phi[sel] = np.arctan2(y[sel], x[sel])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
-- 
2.43.0


From 779c8b77cfcbf2fd7a973293bcad188645165683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 25/42] fix: convert_coordinates: use the given output file

---
 beam_telescope_analysis/hit_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 1a26b51..3b4b7b4 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -110,6 +110,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-- 
2.43.0


From 975c175c0f35e1872ae56232e8a1c92c866f3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 26/42] fix: convert_coordinates: take the nearest pixel
 instead of truncating column and row

---
 beam_telescope_analysis/hit_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 3b4b7b4..6204dbe 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -167,11 +167,14 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # nearest pixel, do not truncate
+                    out_data['column'] = np.rint(column)
+                    out_data['row'] = np.rint(row)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From ce54151d539c3527390f55a4b91d6931b087bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 27/42] fix: get_data_in_event_range: range behind the last
 event, event number 0, open ranges of unsorted data

---
 .../tools/analysis_utils.py                   | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index f6d4709..5233d29 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -416,8 +416,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         hit array with the hits in the event range.
     '''
     event_number = array['event_number']
-    if not np.any(event_number):  # No events in selection
-        return np.array([])
+    if event_number.shape[0] == 0:  # No events in selection
+        return array[0:0]
     if assume_sorted:
         data_event_start = event_number[0]
         data_event_stop = event_number[-1]
@@ -428,24 +428,20 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         if event_start is None:
             min_index_data = 0
         else:
-            if event_number[0] > event_start:
-                min_index_data = 0
-            else:
-                min_index_data = np.argmin(event_number < event_start)
+            min_index_data = np.searchsorted(event_number, event_start, side='left')
 
         if event_stop is None:
             max_index_data = event_number.shape[0]
         else:
-            if event_number[-1] < event_stop:
-                max_index_data = event_number.shape[0]
-            else:
-                max_index_data = np.argmax(event_number >= event_stop)
-
-        if min_index_data < 0:
-            min_index_data = 0
+            max_index_data = np.searchsorted(event_number, event_stop, side='left')
         return array[min_index_data:max_index_data]
     else:
-        return array[ne.evaluate('(event_number >= event_start) & (event_number < event_stop)')]
+        selection = np.ones(event_number.shape, dtype=bool)
+        if event_start is not None:
+            selection &= event_number >= event_start
+        if event_stop is not None:
+            selection &= event_number < event_stop
+        return array[selection]
 
 
 def data_aligned_at_events(table, start_event_number=None, stop_event_number=None, start_index=None, stop_index=None, chunk_size=1000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
-- 
2.43.0


From 6e7530012d3e334f971e345e7933540857ece3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 28/42] fix: apply_alignment: skip the group with the function
 arguments

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..db6c1cc 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -153,7 +153,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     # Looper over the hits of all DUTs of all hit tables in chunks and apply the alignment
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-            for node in in_file_h5.root:  # Loop over potential hit tables in data file
+            for node in in_file_h5.iter_nodes(in_file_h5.root, classname='Table'):  # Loop over potential hit tables in data file
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From 76fbba7c331674a916a253511b345628897c61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 29/42] fix: apply_alignment: do not apply the placement of
 DUT1 to the tracks of DUT10 and higher

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index db6c1cc..552f8a3 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From ad7c30fa9310cf014fa0a3565f6454d4270dbea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 30/42] fix: convert_coordinates: positions on the edge of the
 matrix belong to the outermost pixel

---
 beam_telescope_analysis/hit_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6204dbe..248de4b 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -172,9 +172,9 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
-                    # nearest pixel, do not truncate
-                    out_data['column'] = np.rint(column)
-                    out_data['row'] = np.rint(row)
+                    # nearest pixel, do not truncate; positions on the edge belong to the outermost pixel
+                    out_data['column'] = np.clip(np.rint(column), 1, dut.n_columns)
+                    out_data['row'] = np.clip(np.rint(row), 1, dut.n_rows)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From ac2dfe2d424923fe67f52669c2a3477b6b472ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 31/42] fix: calculate_residuals: chunks without usable tracks
 or without tracks inside the limits, all tracks at one position

---
 beam_telescope_analysis/result_analysis.py    | 42 +++++++++++--------
 .../tools/analysis_utils.py                   |  5 ++-
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..fb19aef 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -83,6 +83,8 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                     # Select data with hits and tracks
                     selection = np.logical_and(~np.isnan(tracks_chunk['x_dut_%d' % actual_dut_index]), ~np.isnan(tracks_chunk['track_chi2']))
                     tracks_chunk = tracks_chunk[selection]  # Take only tracks where actual dut has a hit, otherwise residual wrong
+                    if tracks_chunk.shape[0] == 0:
+                        continue
 
                     hit_x_local, hit_y_local = tracks_chunk['x_dut_%d' % actual_dut_index], tracks_chunk['y_dut_%d' % actual_dut_index]
                     hit_local = np.column_stack([hit_x_local, hit_y_local])
@@ -131,7 +133,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                         plot_n_pixels = 6.0
 
                         # detect peaks and calculate width to estimate the size of the histograms
-                        if nbins_per_pixel is not None:
+                        if nbins_per_pixel is not None and difference_local_limit_xy.shape[0] != 0:
                             min_difference, max_difference = np.min(difference_local_limit_xy[:, 0]), np.max(difference_local_limit_xy[:, 0])
                             nbins = np.arange(min_difference - (actual_dut.column_size / nbins_per_pixel), max_difference + 2 * (actual_dut.column_size / nbins_per_pixel), actual_dut.column_size / nbins_per_pixel)
                         else:
@@ -147,7 +149,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             except RuntimeError:
                                 center_x_local, fwhm_x_local = 0.0, actual_dut.column_size * plot_n_pixels
 
-                        if nbins_per_pixel is not None:
+                        if nbins_per_pixel is not None and difference_local_limit_xy.shape[0] != 0:
                             min_difference, max_difference = np.min(difference_local_limit_xy[:, 1]), np.max(difference_local_limit_xy[:, 1])
                             nbins = np.arange(min_difference - (actual_dut.row_size / nbins_per_pixel), max_difference + 2 * (actual_dut.row_size / nbins_per_pixel), actual_dut.row_size / nbins_per_pixel)
                         else:
@@ -182,6 +184,8 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
 
                         if npixels_per_bin is not None:
                             min_intersection, max_intersection = np.min(intersection_x_local), np.max(intersection_x_local)
+                            if min_intersection == max_intersection:  # a single bin needs two edges
+                                max_intersection += 0.5 * npixels_per_bin * actual_dut.column_size
                             nbins = np.arange(min_intersection, max_intersection + npixels_per_bin * actual_dut.column_size, npixels_per_bin * actual_dut.column_size)
                         else:
                             nbins = "sturges"
@@ -205,6 +209,8 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
 
                         if npixels_per_bin is not None:
                             min_intersection, max_intersection = np.min(intersection_y_local), np.max(intersection_y_local)
+                            if min_intersection == max_intersection:  # a single bin needs two edges
+                                max_intersection += 0.5 * npixels_per_bin * actual_dut.row_size
                             nbins = np.arange(min_intersection, max_intersection + npixels_per_bin * actual_dut.row_size, npixels_per_bin * actual_dut.row_size)
                         else:
                             nbins = "sturges"
@@ -221,36 +227,36 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))
-                        stat_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist = np.nan_to_num(stat_local_x_residuals_x_pos_hist)
-                        count_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
 
                         # local Y residual against Y position
                         local_y_residuals_y_pos_hist, _, _ = np.histogram2d(
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))
-                        stat_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist = np.nan_to_num(stat_local_y_residuals_y_pos_hist)
-                        count_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
 
                         # local Y residual against X position
                         local_y_residuals_x_pos_hist, _, _ = np.histogram2d(
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))
-                        stat_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_hist = np.nan_to_num(stat_local_y_residuals_x_pos_hist)
-                        count_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
 
                         # local X residual against Y position
                         local_x_residuals_y_pos_hist, _, _ = np.histogram2d(
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))
-                        stat_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_hist = np.nan_to_num(stat_local_x_residuals_y_pos_hist)
-                        count_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
 
                         # 2D residuals
                         stat_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
@@ -269,9 +275,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist_tmp = np.nan_to_num(stat_local_x_residuals_x_pos_hist_tmp)
-                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_x_pos_hist, stat_local_x_residuals_x_pos_hist_tmp]), axis=0, weights=np.stack([count_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local Y residual against Y position
@@ -279,9 +285,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist_tmp = np.nan_to_num(stat_local_y_residuals_y_pos_hist_tmp)
-                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_y_pos_hist, stat_local_y_residuals_y_pos_hist_tmp]), axis=0, weights=np.stack([count_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist_tmp]), returned=True)
 
                         # local Y residual against X position
@@ -289,9 +295,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_tmp = np.nan_to_num(stat_local_y_residuals_x_pos_tmp)
-                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_x_pos_hist, stat_local_y_residuals_x_pos_tmp]), axis=0, weights=np.stack([count_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local X residual against Y position
@@ -299,9 +305,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_tmp = np.nan_to_num(stat_local_x_residuals_y_pos_tmp)
-                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_y_pos_hist, stat_local_x_residuals_y_pos_tmp]), axis=0, weights=np.stack([count_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist_tmp]), returned=True)
 
                         # 2D residuals
diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 5233d29..af9a36b 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -886,8 +886,9 @@ def fit_residuals_vs_position(hist, xedges, yedges, mean, count, limit=None):
     select = (count > 0)
 
     if limit is None:
-        n_hits_threshold = np.percentile(count[select], 100.0 - 68.0)
-        select &= (count > n_hits_threshold)
+        if np.any(select):
+            n_hits_threshold = np.percentile(count[select], 100.0 - 68.0)
+            select &= (count > n_hits_threshold)
     else:
         limit_left = limit[0]
         limit_right = limit[1]
-- 
2.43.0


From 8966d4130edfaa061b4882b78862b5eb440af849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 32/42] fix: open_configuation: file objects and empty
 configurations

---
 beam_telescope_analysis/telescope/telescope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 5e45ddf..995a431 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -26,12 +26,12 @@ def open_configuation(configuation):
         if os.path.isfile(os.path.abspath(configuation)):
             logging.info('Loading configuration from file %s', os.path.abspath(configuation))
             with open(os.path.abspath(configuation), mode='r') as f:
-                configuration_dict.update(safe_load(f))
+                configuration_dict.update(safe_load(f) or {})
         else:  # YAML string
-            configuration_dict.update(safe_load(configuation))
-    elif isinstance(configuation, file):  # parse the first YAML document in a stream
+            configuration_dict.update(safe_load(configuation) or {})
+    elif hasattr(configuation, 'read'):  # parse the first YAML document in a stream
         logging.info('Loading configuration from file %s', os.path.abspath(configuation.name))
-        configuration_dict.update(safe_load(configuation))
+        configuration_dict.update(safe_load(configuation) or {})
     elif isinstance(configuation, (dict, OrderedDict)):  # conf is already a dict
         configuration_dict.update(configuation)
     else:
-- 
2.43.0


From 0a95f40fb8c05df4cd9af15d119195d84f6a4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 33/42] fix: save_configuration with keep_others failed if the
 existing file is empty

---
 beam_telescope_analysis/telescope/telescope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 995a431..1a3309b 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -168,7 +168,7 @@ class Telescope(object):
         if configuration_file:
             if keep_others and os.path.isfile(os.path.abspath(configuration_file)):
                 with open(os.path.abspath(configuration_file), mode='r') as f:
-                    configuration = safe_load(f)
+                    configuration = safe_load(f) or {}  # None if the file is empty
             else:
                 configuration = {}
             # create Telescope configuration
-- 
2.43.0


From 717a2745f48428059aeb2361fbd1c3ee42d45d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 34/42] fix: check_file: chunk boundaries, clusters, positions
 on the upper edge, event numbers that decrease at the end of a chunk

---
 beam_telescope_analysis/hit_analysis.py       | 57 +++++++++++--------
 .../tools/analysis_utils.py                   |  6 +-
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 248de4b..4880053 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -352,46 +352,53 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     complevel=5,
                     fletcher32=False))
 
+            column_name, row_name = ('mean_column', 'mean_row') if use_clusters else ('column', 'row')
+            x_name, y_name = ('mean_x', 'mean_y') if use_clusters else ('x', 'y')
+            n_rows = 0
+            # event numbers and histogram indices of the hits in the last events
+            last_hits = [np.empty(0, dtype=np.int64), np.empty(0, dtype=np.uint32), np.empty(0, dtype=np.uint32)]
             last_event_number = 0
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
+                n_rows += data_chunk.shape[0]
                 if use_positions is False:
-                    if np.any(data_chunk['column'] < 1) or np.any(data_chunk['row'] < 1):
+                    if np.any(data_chunk[column_name] < 1) or np.any(data_chunk[row_name] < 1):
                         raise RuntimeError('The column/row index does not start at 1!')
-                    if np.any(data_chunk['column'] > dut.n_columns) or np.any(data_chunk['row'] > dut.n_rows):
+                    if np.any(data_chunk[column_name] > dut.n_columns) or np.any(data_chunk[row_name] > dut.n_rows):
                         raise RuntimeError('The column/row index exceeds the number of pixels (max. %s/%s)!' % (dut.n_columns, dut.n_rows))
                 if use_positions is True:
                     x_extent = dut.x_extent()
                     y_extent = dut.y_extent()
-                    if np.any(data_chunk['x'] < x_extent[0]) or np.any(data_chunk['x'] > x_extent[1]):
-                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.x_extent[0], dut.x_extent[1]))
-                    if np.any(data_chunk['y'] < y_extent[0]) or np.any(data_chunk['y'] > y_extent[1]):
-                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.y_extent[0], dut.y_extent[1]))
-
-                if use_clusters:
-                    if use_positions:
-                        x_pos, y_pos = data_chunk['mean_x'], data_chunk['mean_y']
-                    else:
-                        x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['mean_column'], row=data_chunk['mean_row'])
+                    if np.any(data_chunk[x_name] < x_extent[0]) or np.any(data_chunk[x_name] > x_extent[1]):
+                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (x_extent[0], x_extent[1]))
+                    if np.any(data_chunk[y_name] < y_extent[0]) or np.any(data_chunk[y_name] > y_extent[1]):
+                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (y_extent[0], y_extent[1]))
+
+                if use_positions:
+                    x_pos, y_pos = data_chunk[x_name], data_chunk[y_name]
                 else:
-                    if use_positions:
-                        x_pos, y_pos = data_chunk['x'], data_chunk['y']
-                    else:
-                        x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['column'], row=data_chunk['row'])
-                x_indices = ((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32)
-                y_indices = ((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+                    x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk[column_name], row=data_chunk[row_name])
+                # positions on the upper edge belong to the last bin
+                x_indices = np.minimum((x_pos - hist_x_extent[0]) / resolution[0], x_correlation.shape[0] - 1).astype(np.uint32)
+                y_indices = np.minimum((y_pos - hist_y_extent[0]) / resolution[1], y_correlation.shape[0] - 1).astype(np.uint32)
+                # correlate also with the last events of the previous chunks
+                start_index = last_hits[0].shape[0]
+                last_hits = [np.concatenate(arrays) for arrays in zip(last_hits, (data_chunk['event_number'].astype(np.int64), x_indices, y_indices))]
                 analysis_utils.correlate_hits_on_event_range(
-                    event_numbers=data_chunk['event_number'],
-                    x_indices=x_indices,
-                    y_indices=y_indices,
+                    event_numbers=last_hits[0],
+                    x_indices=last_hits[1],
+                    y_indices=last_hits[2],
                     x_corr_hist=x_correlation,
                     y_corr_hist=y_correlation,
-                    event_range=event_range)
+                    event_range=event_range,
+                    start_index=start_index)
+                last_hits_selection = last_hits[0] > last_hits[0][-1] - event_range
+                last_hits = [array[last_hits_selection] for array in last_hits]
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
-                if last_event:
+                if last_event is not None:
                     event_delta = np.concatenate((np.array([event_numbers[0] - last_event]),
                                                   event_delta))
                 last_event = event_numbers[-1]
@@ -400,6 +407,10 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 out_E.append(event_numbers)
                 last_event_number = event_numbers[-1]
 
+            # reading stops early if the event number decreases
+            if n_rows != node.nrows:
+                raise RuntimeError('The event number does not always increase.')
+
             out_col = out_file_h5.create_carray(
                 where=out_file_h5.root,
                 name='CorrelationColumns',
diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index af9a36b..2db068c 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -145,7 +145,7 @@ def correlate_position_on_event_number(ref_event_numbers, dut_event_numbers, ref
 
 
 @njit(locals={'curr_event_number': numba.int64, 'last_event_number': numba.int64, 'curr_index': numba.int64, 'corr_index': numba.int64})
-def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range):
+def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range, start_index=0):
     """Correlating the hit indices of different events in a certain range.
     For unambiguous event building no correlation should be seen.
 
@@ -165,10 +165,12 @@ def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hi
     event_range : uint
         The number of events to use for correlation,
         e.g., event_range = 1 correlates to predecessing event hits with the current event hits.
+    start_index : uint
+        The index of the first hit that is correlated with its predecessors.
     """
     last_event_number = -1
     # Loop over hits, outer loop
-    for curr_index in range(event_numbers.shape[0]):
+    for curr_index in range(start_index, event_numbers.shape[0]):
         curr_event_number = event_numbers[curr_index]
         # calculate new start index for inner loop if new event occurs
         if curr_event_number != last_event_number:
-- 
2.43.0


From 2f7d7ccd52339eb1151d20cf609c418bdc94e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 35/42] fix: number of histogram bins: no truncation of values
 that are integers up to rounding

---
 beam_telescope_analysis/hit_analysis.py    |  8 ++++----
 beam_telescope_analysis/result_analysis.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 4880053..389546f 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -323,8 +323,8 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             hist_y_size = math.ceil(y_size / resolution[1]) * resolution[1]
             hist_y_extent = [y_center - hist_y_size / 2.0, y_center + hist_y_size / 2.0]
             # Creating histograms for the correlation
-            x_correlation = np.zeros([int(hist_x_size / resolution[0]), int(hist_x_size / resolution[0])], dtype=np.int32)
-            y_correlation = np.zeros([int(hist_y_size / resolution[1]), int(hist_y_size / resolution[1])], dtype=np.int32)
+            x_correlation = np.zeros([int(round(hist_x_size / resolution[0])), int(round(hist_x_size / resolution[0]))], dtype=np.int32)
+            y_correlation = np.zeros([int(round(hist_y_size / resolution[1])), int(round(hist_y_size / resolution[1]))], dtype=np.int32)
 
             # shape_column = (dut.n_columns, dut.n_columns)
             # shape_row = (dut.n_rows, dut.n_rows)
@@ -1361,8 +1361,8 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 dut_hist_y_size = math.ceil(dut_y_size / resolution[1]) * resolution[1]
                 dut_hist_y_extent.append([dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0])
                 # Creating histograms for the correlation
-                x_correlations.append(np.zeros([int(dut_hist_x_size / resolution[0]), int(ref_hist_x_size / resolution[0])], dtype=np.int32))
-                y_correlations.append(np.zeros([int(dut_hist_y_size / resolution[1]), int(ref_hist_y_size / resolution[1])], dtype=np.int32))
+                x_correlations.append(np.zeros([int(round(dut_hist_x_size / resolution[0])), int(round(ref_hist_x_size / resolution[0]))], dtype=np.int32))
+                y_correlations.append(np.zeros([int(round(dut_hist_y_size / resolution[1])), int(round(ref_hist_y_size / resolution[1]))], dtype=np.int32))
                 # Store the loop indices for speed up
                 start_indices.append(None)
 
diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index fb19aef..643a6f1 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -857,8 +857,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     dut_hist_y_size += dut_hist_y_extent_area
                 dut_hist_y_extent = [dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0]
                 hist_extent = [dut_hist_x_extent[0], dut_hist_x_extent[1], dut_hist_y_extent[0], dut_hist_y_extent[1]]
-                hist_2d_x_n_bins = int(dut_hist_x_size / resolution[0])
-                hist_2d_y_n_bins = int(dut_hist_y_size / resolution[1])
+                hist_2d_x_n_bins = int(round(dut_hist_x_size / resolution[0]))
+                hist_2d_y_n_bins = int(round(dut_hist_y_size / resolution[1]))
                 hist_2d_x_edges = np.linspace(dut_hist_x_extent[0], dut_hist_x_extent[1], hist_2d_x_n_bins + 1, endpoint=True)
                 hist_2d_y_edges = np.linspace(dut_hist_y_extent[0], dut_hist_y_extent[1], hist_2d_y_n_bins + 1, endpoint=True)
                 hist_2d_edges = [hist_2d_x_edges, hist_2d_y_edges]
@@ -918,8 +918,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # generate primitive cell of the size of a single pixel
                     dut_in_pixel_hist_x_size = math.ceil(actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
                     dut_in_pixel_hist_y_size = math.ceil(actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                    hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
-                    hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                    hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
+                    hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                     hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                     hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                     hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
@@ -1096,12 +1096,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         if np.any(in_pixel_intersection_x_local > dut_in_pixel_hist_x_size):
                             resize_in_pixel_hist = True
                             dut_in_pixel_hist_x_size = math.ceil(np.ceil(np.max(in_pixel_intersection_x_local) / actual_dut.column_size) * actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
-                            hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
+                            hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
                             hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                         if np.any(in_pixel_intersection_y_local > dut_in_pixel_hist_y_size):
                             resize_in_pixel_hist = True
                             dut_in_pixel_hist_y_size = math.ceil(np.ceil(np.max(in_pixel_intersection_y_local) / actual_dut.row_size) * actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                            hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                            hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                             hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                         if resize_in_pixel_hist:
                             hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
-- 
2.43.0


From d412be165abcb72090f8d3435eba49934a858fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 36/42] fix: alignment: rotation is the average over the
 chunks, chunks without tracks, lists of DUTs of different lengths, no quality
 distance

---
 beam_telescope_analysis/dut_alignment.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 552f8a3..8352df2 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -642,8 +642,6 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
-
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
         select_duts = list(range(n_duts))
@@ -663,8 +661,10 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
+
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
@@ -1009,8 +1009,6 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
-
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
         select_duts = list(range(n_duts))
@@ -1030,8 +1028,10 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
+
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
@@ -1195,8 +1195,10 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         # reqire hits in each DUT that will be aligned
         actual_hit_duts = [list(set(select_hit_duts) | set([dut_index])) for dut_index in actual_align_duts]
         actual_quality_duts = actual_hit_duts
-        fit_quality_distances = np.zeros_like(quality_distances)
+        fit_quality_distances = np.full((len(quality_distances), 2), fill_value=np.inf, dtype=np.float64)
         for index, item in enumerate(quality_distances):
+            if item is None:  # infinite distance
+                continue
             if index in align_duts:
                 fit_quality_distances[index, 0] = np.linspace(item[0] * 1.08447**max_iterations, item[0], max_iterations)[iteration_step]
                 fit_quality_distances[index, 1] = np.linspace(item[1] * 1.08447**max_iterations, item[1], max_iterations)[iteration_step]
@@ -1829,6 +1831,9 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                 slopes = slopes[limit_xy_local_sel]
                 offsets = offsets[limit_xy_local_sel]
                 n_tracks = np.count_nonzero(limit_xy_local_sel)
+                if n_tracks == 0:
+                    chunk_index += 1
+                    continue
 
                 x_dut_start = actual_dut.translation_x
                 y_dut_start = actual_dut.translation_y
@@ -1966,10 +1971,13 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                 total_n_tracks += n_tracks
                 chunk_index += 1
 
+            if rotation_average is None:
+                raise RuntimeError('Cannot calculate transformation for %s: no tracks with hits.' % actual_dut.name)
+
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0


From 677548d2fe9d1889cd7eb0a338777ba1d1934253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 37/42] fix: Voronoi regions of the pixels: list of lists of
 different lengths

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 2db068c..b01d8dd 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1140,7 +1140,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, np.array(vor.regions, dtype=object)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0


From 654dd2d42a40b471336e9855c93e512a740cffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 38/42] fix: efficiency: a single None in resolutions or cut
 distances

---
 beam_telescope_analysis/result_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 643a6f1..ad056aa 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -827,6 +827,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 resolution = resolutions[index]
                 if resolution is None:
                     resolution = actual_dut.pixel_size
+                resolution = list(resolution)
                 if resolution[0] is None:
                     resolution[0] = actual_dut.pixel_size[0]
                 if resolution[1] is None:
@@ -873,6 +874,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     in_pixel_resolution = in_pixel_resolutions[index]
                     if in_pixel_resolution is None:
                         in_pixel_resolution = list(map(min, zip(resolution, [pitch / 10.0 for pitch in actual_dut.pixel_size])))
+                    in_pixel_resolution = list(in_pixel_resolution)
                     if in_pixel_resolution[0] is None:
                         in_pixel_resolution[0] = min(resolution[0], actual_dut.pixel_size[0] / 10.0)
                     if in_pixel_resolution[1] is None:
@@ -1070,6 +1072,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     cut_distance = cut_distances[index]
                     if cut_distance is None:
                         cut_distance = (np.inf, np.inf)
+                    cut_distance = list(cut_distance)
                     if cut_distance[0] is None:
                         cut_distance[0] = np.inf
                     if cut_distance[1] is None:
-- 
2.43.0


From 403e7679c87d0a91a3f1d0e53dc607db249b8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 39/42] fix: efficiency: selection of cluster shapes compared
 the value with itself

---
 beam_telescope_analysis/result_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index ad056aa..d84d025 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1088,7 +1088,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # select cluser shapes with cluster size <=4
                     select_small_cluster_sizes = np.zeros_like(select_valid_hit)
                     for cluster_shape_value in efficiency_regions_analyze_cluster_shapes:
-                        select_small_cluster_sizes |= cluster_shape_value == cluster_shape_value
+                        select_small_cluster_sizes |= cluster_shape == cluster_shape_value
                     if efficiency_regions_dut is not None:
                         # for in-pixel statistics
                         # if neccessary increase size of primitive cell (may be larger than single pixel)
@@ -1265,7 +1265,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
                                 for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
                                     cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
-                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
+                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges, range=[(edges[0], edges[-1]) for edges in hist_in_pixel_cluster_shape_edges])[0]
                                 # updated last:
                                 # 2D in-pixel tracks with valid hit
                                 count_in_pixel_tracks_with_hit_2d_hists[region_index] += count_in_pixel_tracks_with_hit_2d_hist_tmp
@@ -1391,7 +1391,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 count_1d_frame_hist_tmp.resize(count_1d_frame_hist.size, refcheck=False)
                             count_1d_frame_hist += count_1d_frame_hist_tmp
                             # 2D mean cluster size
-                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit & select_small_cluster_sizes], y=intersection_y_local[select_valid_hit & select_small_cluster_sizes], values=cluster_size[select_valid_hit & select_small_cluster_sizes], statistic='mean', bins=hist_2d_edges)
+                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=cluster_size[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_cluster_size_hist_tmp = np.nan_to_num(stat_2d_cluster_size_hist_tmp)
                             stat_2d_cluster_size_hist, _ = np.ma.average(a=np.stack([stat_2d_cluster_size_hist, stat_2d_cluster_size_hist_tmp]), axis=0, weights=np.stack([count_tracks_with_hit_2d_hist, count_tracks_with_hit_2d_hist_tmp]), returned=True)
                             # 1D total track anlge
-- 
2.43.0


From 2c2f105b4d6763d4ad37172194b1eff90694b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 40/42] fix: efficiency: hit pixels from cluster files

---
 beam_telescope_analysis/result_analysis.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index d84d025..06aa116 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1051,6 +1051,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     frame = frame[select_enabled_pixel_hit]
                     cluster_size = cluster_size[select_enabled_pixel_hit]
                     cluster_shape = cluster_shape[select_enabled_pixel_hit]
+                    selected_tracks = tracks_chunk[select_enabled_pixel_hit]
 
                     # Calculate distance between track intersection and DUT hit location
                     x_residuals = hit_x_local - intersection_x_local
@@ -1425,25 +1426,28 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
                         count_tracks_2d_hist += count_tracks_2d_hist_tmp
-                    if in_cluster_file_h5:
+                    if in_cluster_file_h5 and np.any(select_valid_hit):
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
                         # get 1D index, and remove 1st overflow bin
-                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
+                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins), mode='clip')
+                        # tracks inside of the histogram
+                        select_inside_hist = (binnumber[0] >= 1) & (binnumber[0] <= hist_2d_x_n_bins) & (binnumber[1] >= 1) & (binnumber[1] <= hist_2d_y_n_bins)
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
-                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            selected_event_numbers_clusters_ids = np.array(selected_tracks[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
+                            selected_cluster_hits, selected_indices = selected_cluster_hits[select_inside_hist[selected_indices]], selected_indices[select_inside_hist[selected_indices]]
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            # expand size of index array so that the length matches the cluster array
-                            actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            # index of the bin for each cluster hit
+                            actual_bin_center_indices = tracks_with_hits_to_bin_center_index[selected_indices]
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, (count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(actual_pixel_center_indices, (actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
@@ -1455,7 +1459,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             hits_select &= actual_row_index >= 0
                             hits_select &= actual_row_index < count_pixel_hits_2d_hist.shape[3]
                             # check for significant number of hits outside of the array
-                            if np.count_nonzero(~hits_select) / hits_select.shape[0] > 1e-3:
+                            if np.count_nonzero(~hits_select) / max(1, hits_select.shape[0]) > 1e-3:
                                 logging.warning('Consider increasing shape of count_pixel_hits_2d_hist')
                             ravel_indices = np.ravel_multi_index((actual_bin_center_col_row_pair[hits_select, 0], actual_bin_center_col_row_pair[hits_select, 1], actual_col_index[hits_select], actual_row_index[hits_select]), dims=count_pixel_hits_2d_hist.shape)
                             unique_indices, unique_indices_count = np.unique(ravel_indices, return_counts=True)
-- 
2.43.0


From 4253256a693887dfde4cff77131eb07abd94bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 41/42] fix: efficiency: chunks and regions without tracks or
 hits

---
 beam_telescope_analysis/result_analysis.py | 45 ++++++++++++++--------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 06aa116..30b58bc 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1019,6 +1019,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
                 initialize = True
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1162,10 +1163,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
 
                             # Moving average
-                            efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
+                            efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / max(1, efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
                             efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
                             # Per chunk
-                            efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / np.count_nonzero(select_valid_tracks_efficiency_region)
+                            efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / max(1, np.count_nonzero(select_valid_tracks_efficiency_region))
                             if efficiency_regions_count_1d_charge_hist[region_index] is None:
                                 efficiency_regions_count_1d_charge_hist[region_index] = np.bincount(charge[select_valid_tracks_efficiency_region & select_valid_hit].astype(np.int64))
                             else:
@@ -1185,7 +1186,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                     efficiency_region_count_1d_frame_hist_tmp.resize(efficiency_regions_count_1d_frame_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_frame_hist[region_index] += efficiency_region_count_1d_frame_hist_tmp
                             if efficiency_regions_count_1d_cluster_size_hist[region_index] is None:
-                                efficiency_regions_count_1d_cluster_size_hist[region_index] = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit])
+                                efficiency_regions_count_1d_cluster_size_hist[region_index] = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit], minlength=1)
                             else:
                                 efficiency_region_count_1d_cluster_size_hist_tmp = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit])
                                 if efficiency_region_count_1d_cluster_size_hist_tmp.size > efficiency_regions_count_1d_cluster_size_hist[region_index].size:
@@ -1193,25 +1194,25 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 else:
                                     efficiency_region_count_1d_cluster_size_hist_tmp.resize(efficiency_regions_count_1d_cluster_size_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_cluster_size_hist[region_index] += efficiency_region_count_1d_cluster_size_hist_tmp
-                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None and np.any(select_valid_tracks_efficiency_region & select_valid_hit):
                                 local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
-                            else:
+                            elif efficiency_regions_count_1d_total_angle_hist[region_index] is not None:
                                 efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
-                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None and np.any(select_valid_tracks_efficiency_region & select_valid_hit):
                                 local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
-                            else:
+                            elif efficiency_regions_count_1d_alpha_angle_hist[region_index] is not None:
                                 efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
-                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None and np.any(select_valid_tracks_efficiency_region & select_valid_hit):
                                 local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
-                            else:
+                            elif efficiency_regions_count_1d_beta_angle_hist[region_index] is not None:
                                 efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
                             if efficiency_regions_count_1d_cluster_shape_hist[region_index] is None:
@@ -1233,7 +1234,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                             # for in-pixel statistics
                             # 2D in-pixel tracks
-                            count_in_pixel_tracks_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
+                            count_in_pixel_tracks_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges, range=[(edges[0], edges[-1]) for edges in hist_in_pixel_2d_edges])[0]
                             if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
                                 count_in_pixel_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel hits
@@ -1280,12 +1281,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                     # Check if DUT has valid hits
                     if initialize:
-                        initialize = False
                         # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
+                        count_tracks_2d_hist_chunk = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges, range=[dut_hist_x_extent, dut_hist_y_extent])[0]
+                        count_tracks_2d_hist += count_tracks_2d_hist_chunk
                         if np.any(select_valid_hit):  # Check for valid hits
+                            # the histograms are initialized with the first valid hits
+                            initialize = False
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
                             # 2D tracks with valid hit
@@ -1350,7 +1351,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
                     else:
                         # 2D tracks
-                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges, range=[dut_hist_x_extent, dut_hist_y_extent])[0]
                         # Per chunk
                         count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
@@ -1470,7 +1471,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         continue
 
                     # Global efficiency per chunk
-                    if np.any(select_valid_hit):
+                    if np.any(select_valid_hit) and np.any(count_tracks_2d_hist_chunk):
                         # Calculate mean efficiency without any binning per chunk
                         eff_chunk, eff_chunk_err_min, eff_chunk_err_max = analysis_utils.get_mean_efficiency(
                             array_pass=count_tracks_with_hit_2d_hist_chunk,
@@ -1488,6 +1489,11 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     pbar.update(tracks_chunk.shape[0])
                 pbar.close()
 
+                if np.all(count_tracks_2d_hist == 0):
+                    continue  # no tracks, skip DUT
+                if initialize:
+                    raise RuntimeError('All efficiencies for DUT%d are zero, consider changing cut values!' % actual_dut_index)
+
                 # Calculate efficiency
                 stat_2d_efficiency_hist = np.full_like(count_tracks_2d_hist, fill_value=np.nan, dtype=np.float64)
                 stat_2d_efficiency_hist[count_tracks_2d_hist != 0] = count_tracks_with_hit_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) / count_tracks_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) * 100.0
@@ -1609,13 +1615,18 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             efficiency_regions_count_1d_charge_hist[region_index].resize(count_1d_charge_hist.size, refcheck=False)
                         if count_1d_frame_hist.size > efficiency_regions_count_1d_frame_hist[region_index].size:
                             efficiency_regions_count_1d_frame_hist[region_index].resize(count_1d_frame_hist.size, refcheck=False)
+                        # region without valid hits
+                        if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                            efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.zeros_like(count_1d_total_angle_hist), count_1d_total_angle_hist_edges
+                            efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.zeros_like(count_1d_alpha_angle_hist), count_1d_alpha_angle_hist_edges
+                            efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.zeros_like(count_1d_beta_angle_hist), count_1d_beta_angle_hist_edges
                         mean_charge = analysis_utils.get_mean_from_histogram(efficiency_regions_count_1d_charge_hist[region_index], range(count_1d_charge_hist.size))
                         if efficiency_regions_names_dut[region_index] is not None:
                             logging.info('Mean charge for region %d (%s) = %.2f' % (region_index + 1, efficiency_regions_names_dut[region_index], mean_charge))
                         else:
                             logging.info('Mean charge for region %d = %.2f' % (region_index + 1, mean_charge))
                 if not np.any(stat_2d_efficiency_hist):
-                    raise RuntimeError('All efficiencies for DUT%d are zero, consider changing cut values!', actual_dut_index)
+                    raise RuntimeError('All efficiencies for DUT%d are zero, consider changing cut values!' % actual_dut_index)
                 # try:
                 plot_utils.efficiency_plots(
                     telescope=telescope,
-- 
2.43.0


From 518e9c334adcac53df420921f84a618dfae6b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 42/42] fix: prealign failed if the reference DUT has a
 translation in x or y

---
 beam_telescope_analysis/dut_alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 8352df2..e710be9 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -261,7 +261,6 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 logging.info('Pre-aligning data from %s', node.name)
                 bin_size = node.attrs.resolution
                 ref_hist_extent = node.attrs.ref_hist_extent
-                ref_hist_size = (ref_hist_extent[1] - ref_hist_extent[0])
                 dut_hist_extent = node.attrs.dut_hist_extent
                 dut_hist_size = (dut_hist_extent[1] - dut_hist_extent[0])
 
@@ -311,7 +310,7 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 # find loactions where the max. correlation is close to expected value
                 x_list = find_inliers(
                     x=dut_pos[max_select != 0],
-                    y=(max_select[max_select != 0] * bin_size - ref_hist_size / 2.0 + bin_size / 2.0),
+                    y=(max_select[max_select != 0] * bin_size + ref_hist_extent[0] + bin_size / 2.0),
                     m=slope,
                     c=offset_plot,
                     threshold=pixel_size * np.sqrt(12) * 2)
-- 
2.43.0

