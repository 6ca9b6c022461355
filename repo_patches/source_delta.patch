From 95a50e320f6158ac35fcebbf8c3a985692cf64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 01/29] fix: keep buffered batches when the end-of-stream
 signal finds the queue full

---
 src/synthpix/scheduler/prefetch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..ba07f12 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -161,15 +161,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
+                    # If the queue is full for <eos_timeout>, I append the
+                    # end-of-stream signal past maxsize: the batches still in
+                    # the queue belong to the consumer and must not be dropped.
 
                     # Acquire the mutex to ensure atomicity
                     with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
                         # Write the EOS sentinel atomically
                         self._queue.queue.append(None)
 
-- 
2.43.0


From 301483fe4447f46a00b89e29fe91c375d8b7524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 02/29] fix: never leave the prefetch worker stuck in put() on
 shutdown or reset

---
 src/synthpix/scheduler/prefetch.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index ba07f12..6882cad 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -1,6 +1,7 @@
 """PrefetchingFlowFieldScheduler to asynchronously prefetch flow fields."""
 
 import queue
+import sys
 import threading
 import time
 
@@ -182,17 +183,24 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             # Exception cannot be raised here, would be dead code.
             self._queue.put(batch, block=True)
 
+    def _release_producer(self) -> None:
+        """Lifts the queue bound so that a pending put() of the worker returns.
+
+        Freeing a single slot is not enough: the worker may not have reached
+        put() yet, or the slot may be taken by the end-of-stream signal.
+        """
+        with self._queue.mutex:
+            self._queue.maxsize = sys.maxsize
+            self._queue.not_full.notify_all()
+
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
         # Set the stop event to stop the current thread
         self._stop_event.set()
 
-        # If the thread is stuck on put(), free up one slot in the queue
+        # If the thread is stuck on put(), let it through
         # so the thread can check the stop event.
-        try:
-            self._queue.get_nowait()
-        except queue.Empty:
-            pass
+        self._release_producer()
 
         # Wait for the thread to finish
         if self._thread.is_alive():
@@ -227,11 +235,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             # stop event not initialized, nothing to do
             return
 
-        # If producer is stuck on put(), free up one slot
-        try:
-            self._queue.get_nowait()
-        except queue.Empty:
-            pass
+        # If producer is stuck on put(), let it through
+        self._release_producer()
 
         # If consumer is stuck on get(), inject the end-of-stream signal
         try:
-- 
2.43.0


From 79100f4f30b3127751152361baf1fab92922a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 03/29] fix: start the prefetch worker only once under
 concurrent consumers

---
 src/synthpix/scheduler/prefetch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6882cad..32859a1 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -61,6 +61,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._thread = threading.Thread(target=self._worker, daemon=True)
 
         self._started = False
+        self._start_lock = threading.Lock()
         self._t = 0
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
@@ -131,10 +132,11 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
     def _start_worker(self) -> None:
         """Starts the background prefetching thread if not already started."""
-        if not self._started:
-            self._started = True
-            self._thread.start()
-            logger.debug("Background thread started.")
+        with self._start_lock:
+            if not self._started:
+                self._started = True
+                self._thread.start()
+                logger.debug("Background thread started.")
 
     def _worker(self, eos_timeout: float = 2.0) -> None:
         """Background thread that fetches batches from the scheduler.
-- 
2.43.0


From e52fb2ff2c0be3872cdf921d3d62c4d747147b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 04/29] fix: raise errors of the prefetch worker in the
 consumer instead of ending the stream

---
 src/synthpix/scheduler/prefetch.py | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 32859a1..7619d42 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -19,6 +19,13 @@ from synthpix.scheduler.protocol import (
 logger = get_logger(__name__, scope=SYNTHPIX_SCOPE)
 
 
+class _WorkerError:
+    """Carries an exception of the background thread to the consumer."""
+
+    def __init__(self, error: Exception):
+        self.error = error
+
+
 class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
     """Prefetching Wrapper around a FlowFieldScheduler or an EpisodicScheduler.
 
@@ -90,6 +97,9 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         Raises:
             ValueError: If the requested batch_size does not match
                 the prefetching batch size.
+            StopIteration: If the stream ended or no batch arrived in time.
+            Exception: Any other error raised by the underlying scheduler
+                in the background thread.
         """
         if batch_size != self.batch_size:
             raise ValueError(
@@ -117,6 +127,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             if batch is None:
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
+            if isinstance(batch, _WorkerError):
+                raise batch.error
             return batch
         except queue.Empty:
             logger.info("Unable to get data.")
@@ -147,11 +159,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         """
         while not self._stop_event.is_set():
             try:
-                batch = self.scheduler.get_batch(self.batch_size)
-            except EpisodeEnd as e:
-                assert isinstance(self.scheduler, EpisodicSchedulerProtocol)
-                self.scheduler.next_episode()
-                continue
+                try:
+                    batch = self.scheduler.get_batch(self.batch_size)
+                except EpisodeEnd:
+                    assert isinstance(self.scheduler, EpisodicSchedulerProtocol)
+                    self.scheduler.next_episode()
+                    continue
             except StopIteration:
                 # Intended behavior here:
                 # I called get_batch() and ran into a StopIteration,
@@ -179,6 +192,13 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 logger.info("No more data to fetch, stopping prefetching thread.")
                 self._stop_event.set()
                 return
+            except Exception as e:
+                # Hand the error over to the consumer, behind the batches that
+                # were loaded before it: it must not look like an end of stream.
+                logger.error(f"Prefetching failed: {e!r}")
+                self._queue.put(_WorkerError(e), block=True)
+                self._stop_event.set()
+                return
 
             # This will block until there is free space in the queue:
             # no busy‑waiting needed.
@@ -303,6 +323,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     continue
                 if item is None:  # End-of-stream signal
                     break
+                if isinstance(item, _WorkerError):
+                    raise item.error
                 discarded += 1
         else:
             self._start_worker()
-- 
2.43.0


From 8c702e756f1386a8d6456c86936c56ca02058ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 05/29] fix: finish the flush of next_episode() that outlasts
 join_timeout

---
 src/synthpix/scheduler/prefetch.py | 51 ++++++++++++++++++------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 7619d42..4b93f66 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -70,6 +70,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._started = False
         self._start_lock = threading.Lock()
         self._t = 0
+        self._to_discard = 0  # batches of abandoned episodes still to be skipped
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -114,26 +115,32 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     "Episode ended. No more flow fields available. "
                     "Use next_episode() to continue."
                 )
+        timeout = self.startup_timeout if self.startup else self.steady_state_timeout
+        deadline = time.monotonic() + timeout
         try:
-            if self.startup:
-                batch = self._queue.get(block=True, timeout=self.startup_timeout)
-            else:
-                batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
-
-            if self.startup:
-                self.startup = False
-
-            self._t += 1
-            if batch is None:
-                logger.info("End of stream reached, stopping iteration.")
-                raise StopIteration
-            if isinstance(batch, _WorkerError):
-                raise batch.error
-            return batch
+            batch = self._queue.get(block=True, timeout=timeout)
+            # Finish the flush that next_episode() had no time to complete: these
+            # batches belong to an episode that was abandoned.
+            while self._to_discard > 0 and not (
+                batch is None or isinstance(batch, _WorkerError)
+            ):
+                self._to_discard -= 1
+                batch = self._queue.get(
+                    block=True, timeout=max(0.0, deadline - time.monotonic())
+                )
         except queue.Empty:
             logger.info("Unable to get data.")
             raise StopIteration
 
+        self.startup = False
+        self._t += 1
+        if batch is None:
+            logger.info("End of stream reached, stopping iteration.")
+            raise StopIteration
+        if isinstance(batch, _WorkerError):
+            raise batch.error
+        return batch
+
     def get_flow_fields_shape(self) -> tuple[int, ...]:
         """Return the shape of the flow fields from the underlying scheduler.
 
@@ -237,6 +244,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._to_discard = 0
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
@@ -310,11 +318,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             return
 
         if self._started and self.steps_remaining() > 0:
-            to_discard = self.steps_remaining()
-            discarded = 0
-            deadline = time.time() + join_timeout
-            while discarded < to_discard:
-                remaining_time = deadline - time.time()
+            # What does not arrive in time is discarded later by get_batch(), so
+            # that the next batch served is always the first of an episode.
+            self._to_discard += self.steps_remaining()
+            deadline = time.monotonic() + join_timeout
+            while self._to_discard > 0:
+                remaining_time = deadline - time.monotonic()
                 if remaining_time <= 0:
                     break
                 try:
@@ -325,7 +334,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     break
                 if isinstance(item, _WorkerError):
                     raise item.error
-                discarded += 1
+                self._to_discard -= 1
         else:
             self._start_worker()
 
-- 
2.43.0


From a4d0c0d4928dac3e6e1827b1e98fb33e2ca30b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 06/29] fix: serve a file again when it appears twice in a row
 in the file list

---
 src/synthpix/scheduler/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..15ee1ae 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -189,6 +189,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 return sample
             except FileEndedError as e:
                 self.index += 1
+                # The next entry may be this same (cached) file again
+                self._slice_idx = 0
                 continue  # Skip to the next file
 
         raise StopIteration
-- 
2.43.0


From 25c2f17e62701cdcc04fcfafe6bc625809346ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 07/29] fix: stop instead of spinning when looping over files
 that cannot be loaded

---
 src/synthpix/scheduler/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 15ee1ae..3007278 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -160,11 +160,17 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             A single flow field slice.
 
         Raises:
-            StopIteration: If no more data and loop is False.
+            StopIteration: If no more data and loop is False, or if no file
+                of a whole pass can be loaded.
         """
+        wrapped = False
         while self.index < len(self.file_list) or self.loop:
             # Handle loop around
             if self.index >= len(self.file_list):
+                if wrapped:
+                    # A whole pass yielded nothing: do not spin forever
+                    break
+                wrapped = True
                 self.reset()
 
             # Get the current file path
@@ -220,10 +226,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             except StopIteration:
                 break
         if len(batch) == 0:
-            if not self.loop:
-                raise StopIteration
-            self.reset()
-        if len(batch) < batch_size and not self.loop:
+            raise StopIteration
+        if len(batch) < batch_size:
             mask = np.zeros((batch_size,), dtype=bool)
             mask[: len(batch)] = True
 
-- 
2.43.0


From 633622ac890917b6f7c18126316e419454eded84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 08/29] fix: pad incomplete batches of colour images

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 3007278..362c246 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -274,14 +274,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From 2d9ffea8e07cf3026cff4a7069f2f360e6f09687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 09/29] fix: keep the episode order when the wrapped scheduler
 is randomized

---
 src/synthpix/scheduler/episodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..ab6c3a3 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -285,6 +285,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             f"{len(interleaved)} files"
         )
 
-        # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # Reset cursors before injecting the new order: a randomized scheduler
+        # shuffles its file list on reset
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From 895b2c82d10c61bddd6b3281150d38c1af348401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 10/29] fix: list leaf directories in an order that does not
 depend on hash seeds

---
 src/synthpix/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..21f753f 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -463,7 +463,7 @@ def discover_leaf_dirs(
     dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
     leaves: list[str] = []
 
-    for d in dir_paths:
+    for d in sorted(dir_paths):  # set order differs between processes
         try:
             with os.scandir(d) as it:
                 # Early-exit on the first subdirectory
-- 
2.43.0


From 39ae4e16404335d180e0053aa111a10ceabc3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 11/29] fix: accept directories of HDF5 files

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..277f3a4 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From f7ac8e128fd00365bfe262ccc982fa9083d29d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 12/29] fix: resize MAT images to (height, width), not (width,
 height)

---
 src/synthpix/scheduler/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..2847aa7 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -147,7 +147,7 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        Image.fromarray(img).resize(self.output_shape[::-1])
                     )
 
         flow = data["V"]
-- 
2.43.0


From 8e4208e6a5935527d25e4d99cf36945c7ab2e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 13/29] fix: skip a file whose images cannot be read instead of
 failing on it forever

---
 src/synthpix/scheduler/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 362c246..d0193cf 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -198,6 +198,12 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 # The next entry may be this same (cached) file again
                 self._slice_idx = 0
                 continue  # Skip to the next file
+            except Exception as e:
+                # E.g. the images that belong to the file cannot be read
+                logger.error(f"Error reading file {path}: {e}")
+                self.index += 1
+                self._slice_idx = 0
+                continue  # Skip to the next file
 
         raise StopIteration
 
-- 
2.43.0


From 707703fcd0241fe798df50992cb73acb080e851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 14/29] fix: do not reuse old flow fields after the scheduler
 failed or ended

---
 src/synthpix/sampler/synthetic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..0378f4b 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -466,10 +466,11 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
-            # Reset the batch counter
+            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
+
+            # Reset the batch counter, only now that there are new flow fields
             self._batches_generated = 0
 
-            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
             self._mask_scheduler = (
                 scheduler_batch.mask
-- 
2.43.0


From cbed9ef6c079adb9f83bebd46b5ab386a0c5c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 15/29] fix: use each flow batch once also when the episodic
 scheduler is prefetched

---
 src/synthpix/sampler/synthetic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 0378f4b..ee35bdb 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -15,6 +15,7 @@ from synthpix.data_generate import (
     generate_images_from_flow,
 )
 from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
+from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
 from synthpix.types import ImageGenerationSpecification, SynthpixBatch
 from synthpix.utils import (
     DEBUG_JIT,
@@ -160,8 +161,11 @@ class SyntheticImageSampler(Sampler):
         if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
             raise ValueError("batches_per_flow_batch must be a positive integer.")
         self.batches_per_flow_batch = batches_per_flow_batch
+        base_scheduler = self.scheduler
+        if isinstance(base_scheduler, PrefetchingFlowFieldScheduler):
+            base_scheduler = base_scheduler.scheduler
         if (
-            isinstance(self.scheduler, EpisodicFlowFieldScheduler)
+            isinstance(base_scheduler, EpisodicFlowFieldScheduler)
             and batches_per_flow_batch != 1
         ):
             self.batches_per_flow_batch = 1
-- 
2.43.0


From 8653577a31edc455800317b6a4b8aa2f9e556514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 16/29] fix: give each image pair its own mask and file entry

---
 src/synthpix/sampler/synthetic.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index ee35bdb..64aa3e4 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -456,6 +456,27 @@ class SyntheticImageSampler(Sampler):
         self._current_flows = None
         self._batches_generated = 0
 
+    def _per_row(self, values):
+        """Repeats per-flow-field values for every image pair made from them.
+
+        Mirrors how flow fields are assigned to image pairs: each device cycles
+        through its own share of the flow fields.
+
+        Args:
+            values: One value per flow field, or None.
+
+        Returns:
+            One value per image pair, of the same type (array or tuple), or None.
+        """
+        if values is None or len(values) == self.batch_size:
+            return values
+        rows = np.arange(self.batch_size // self.ndevices)
+        flows = len(values) // self.ndevices
+        index = [d * flows + r % flows for d in range(self.ndevices) for r in rows]
+        if isinstance(values, tuple):
+            return tuple(values[i] for i in index)
+        return np.asarray(values)[index]
+
     def _get_next(self) -> SynthpixBatch:
         """Generates the next batch of synthetic images.
 
@@ -476,12 +497,13 @@ class SyntheticImageSampler(Sampler):
             self._batches_generated = 0
 
             self._current_flows = scheduler_batch.flow_fields
-            self._mask_scheduler = (
+            self._mask_scheduler = self._per_row(
                 scheduler_batch.mask
             )  # Notice that self._mask refers to the current mask provided by the scheduler
             # denoting the valid flows of the current batch, shape (batch_size,)
+            # (one entry per image pair, like the files below)
             # While instead self.mask_images refers to the static mask provided at initialization
-            self._files_scheduler = scheduler_batch.files
+            self._files_scheduler = self._per_row(scheduler_batch.files)
 
             # Shard the flow fields across devices
             self._current_flows = jnp.array(self._current_flows, device=self.sharding)
-- 
2.43.0


From ec36b03f3f19f93c33acb216215fab9b6f7d934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 17/29] fix: let make() prefetch and run episodes of
 flow_fields_per_batch flow fields

---
 src/synthpix/make.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..9921928 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -183,12 +183,17 @@ def make(
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
+    # The synthetic sampler asks the scheduler for flow fields, not for images
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # If episode_length is specified, use EpisodicFlowFieldScheduler
     if episode_length > 0:
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +202,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From ebca564d0ac0df64060ad32f218b9d3de21b6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 18/29] fix: pass the random key of make() on to the file
 schedulers

---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 277f3a4..6f8173c 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key", None),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 2847aa7..f441f90 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -226,4 +226,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key", None),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..67e5be8 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key", None),
         )
-- 
2.43.0


From 001148a5f59b40470853b104e689ef2ade49a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 19/29] fix: put downloads in place only once they are complete

---
 scripts/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 4ec80a1..fb68a86 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -18,12 +18,17 @@ def download_file(url: str, output_path: Path) -> bool:
         True if download succeeded, False otherwise.
     """
     print(f"Downloading {url} to {output_path}...")
+    # Download next to the target, so that an interrupted download never passes
+    # for a complete file
+    part_path = output_path.with_name(output_path.name + ".part")
     try:
-        urllib.request.urlretrieve(url, output_path)
+        urllib.request.urlretrieve(url, part_path)
+        part_path.replace(output_path)
         print("Done.")
         return True
     except Exception as e:
         print(f"Failed to download {url}: {e}")
+        part_path.unlink(missing_ok=True)
         return False
 
 
-- 
2.43.0


From bf44ac276399688afd17457e021bdbf71403625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 20/29] fix: update configuration files atomically and without
 changing other values

---
 src/synthpix/sanity.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..1c6260d 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -3,12 +3,14 @@
 import argparse
 import collections
 import os
+import shutil
 import sys
 
 import h5py
 import jax.numpy as jnp
 import numpy as np
 from goggles import get_logger
+from ruamel.yaml import YAML
 from tqdm import tqdm
 
 from .sampler import SyntheticImageSampler
@@ -33,10 +35,8 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
 
     # Convert all values in config_data to standard Python types
     def convert_to_standard_type(value):
-        if isinstance(value, (np.floating)):
-            return float(value)
-        elif isinstance(value, (np.integer, jnp.integer)):
-            return int(value)
+        if isinstance(value, np.generic):
+            return value.item()
         elif isinstance(value, (np.ndarray, jnp.ndarray)):
             return value.tolist()
         return value
@@ -50,16 +50,27 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
     for key, value in updated_values.items():
         config_data[key] = convert_to_standard_type(value)
 
-    # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
+    # Keep the file list, usually the longest entry, at the end
+    if "file_list" in config_data:
+        config_data.move_to_end("file_list")
 
-    with open(config_path, "w") as file:
-        for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
-        if file_list and isinstance(file_list, list):
-            file.write("file_list:\n")
-            for item in file_list:
-                file.write(f"  - {str(item)}\n")
+    # Write a complete new file next to the old one and swap them atomically:
+    # whatever goes wrong, the configuration on disk is never a partial one
+    config_path = os.path.realpath(config_path)
+    tmp_path = f"{config_path}.tmp"
+    try:
+        with open(tmp_path, "w", encoding="utf-8") as file:
+            yaml = YAML(typ="safe", pure=True)
+            yaml.sort_base_mapping_type_on_output = False
+            yaml.dump(dict(config_data), file)
+            file.flush()
+            os.fsync(file.fileno())
+        shutil.copymode(config_path, tmp_path)
+        os.replace(tmp_path, config_path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From fefbacad98ce61c4c2566eaebb1ec482a8db3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 21/29] fix: make the stream after a reset independent of
 prefetch timing

---
 src/synthpix/scheduler/base.py     | 24 ++++++++++++++++++++----
 src/synthpix/scheduler/episodic.py |  7 ++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index d0193cf..aa9e2dd 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -46,6 +46,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             value: List of file paths.
         """
         self._file_list = value
+        self._initial_file_list = value
 
     def __init__(
         self,
@@ -111,7 +112,11 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             cpu = jax.devices("cpu")[0]
             file_list_indices = jnp.arange(len(self.file_list), device=cpu)
             file_list_indices = jax.random.permutation(shuffle_key, file_list_indices)
-            self.file_list = [self.file_list[i] for i in file_list_indices.tolist()]
+            self._file_list = [self.file_list[i] for i in file_list_indices.tolist()]
+
+        # What a reset starts from, see reset()
+        self._initial_file_list = self._file_list
+        self._reset_key = jax.random.fold_in(self.key, 0)
 
         self._cached_data: SchedulerData | None = None
         self._cached_file: str | None = None
@@ -139,7 +144,18 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         return self
 
     def reset(self) -> None:
-        """Resets the state."""
+        """Resets the state.
+
+        A new shuffle depends on the number of resets only, not on how many passes
+        were read before: under a prefetching scheduler that is a matter of timing.
+        """
+        if self.randomize:
+            self._reset_key, self.key = jax.random.split(self._reset_key)
+            self._file_list = self._initial_file_list
+        self._start_pass()
+
+    def _start_pass(self) -> None:
+        """Moves to the beginning of a new, newly shuffled pass over the files."""
         self.index = 0
         self._slice_idx = 0
         self._cached_data = None
@@ -149,7 +165,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             cpu = jax.devices("cpu")[0]
             file_list_indices = jnp.arange(len(self.file_list), device=cpu)
             file_list_indices = jax.random.permutation(shuffle_key, file_list_indices)
-            self.file_list = [self.file_list[i] for i in file_list_indices.tolist()]
+            self._file_list = [self.file_list[i] for i in file_list_indices.tolist()]
 
     def _get_next(self) -> SchedulerData:
         """Returns the next flow field slice from the dataset.
@@ -171,7 +187,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                     # A whole pass yielded nothing: do not spin forever
                     break
                 wrapped = True
-                self.reset()
+                self._start_pass()
 
             # Get the current file path
             path = self.file_list[self.index]
diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ab6c3a3..29cb4fc 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -105,6 +105,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         self._episode_length = episode_length
 
         self._key = key if key is not None else jax.random.PRNGKey(0)
+        self._reset_key = jax.random.fold_in(self._key, 0)
         self._t = 0
 
         # Calculate the possible starting positions to sample from
@@ -187,8 +188,12 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
     def reset_episode(self) -> None:
         """Start *batch_size* brand-new episodes.
 
-        The call is cheap: it only reshuffles ``file_list`` and resets cursors
+        The call is cheap: it only reshuffles ``file_list`` and resets cursors.
+        The new episodes depend on the number of resets only, not on how many
+        episodes were sampled before: under a prefetching scheduler that is a
+        matter of timing.
         """
+        self._reset_key, self._key = jax.random.split(self._reset_key)
         self._sample_new_episodes()
         self._t = 0
 
-- 
2.43.0


From 57ee3a42027888c69811f68da9c6d721580d5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 22/29] fix: never leave a partly written sample under its
 final name

---
 scripts/download_piv_1.py | 10 +++++++---
 scripts/download_piv_2.py |  7 +++++--
 scripts/utils.py          | 24 ++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/scripts/download_piv_1.py b/scripts/download_piv_1.py
index 389a658..6e0a4dd 100644
--- a/scripts/download_piv_1.py
+++ b/scripts/download_piv_1.py
@@ -63,7 +63,7 @@ import shutil
 import re
 import gdown
 import random
-from utils import download_file, read_list, write_list
+from utils import complete_or_absent, download_file, read_list, write_list
 
 
 # --- Google Drive folders provided by the dataset authors ---
@@ -231,7 +231,10 @@ def pack_triplet(
     I1 = read_img(img2_path)
     flow = resize_flow(flow, target_shape)
     # Save as HDF5-based .mat (MATLAB v7.3)
-    with h5py.File(out_path, "w") as f:
+    with (
+        complete_or_absent(Path(out_path)) as part_path,
+        h5py.File(part_path, "w") as f,
+    ):
         f.create_dataset("V", data=flow)
         f.create_dataset("I0", data=I0)
         f.create_dataset("I1", data=I1)
@@ -415,7 +418,8 @@ def perform_split(packed_root: Path, split_root: Path) -> None:
 
             target_dir.mkdir(parents=True, exist_ok=True)
 
-            shutil.copy(mat_path, target_dir / fname)
+            with complete_or_absent(target_dir / fname) as part_path:
+                shutil.copy(mat_path, part_path)
             print(f"{fname} → {s}/{rel.parent}/{re_folder if re_match else ''}")
 
     print("\nSplitting complete!")
diff --git a/scripts/download_piv_2.py b/scripts/download_piv_2.py
index 2b83eca..7c60d30 100644
--- a/scripts/download_piv_2.py
+++ b/scripts/download_piv_2.py
@@ -6,7 +6,7 @@ from pathlib import Path
 import h5py
 import numpy as np
 import tensorflow as tf
-from utils import download_file
+from utils import complete_or_absent, download_file
 
 # URL for the dataset
 ZENODO_URL = "https://zenodo.org/records/4432496/files/Data_ProblemClass2_RAFT-PIV.zip?download=1"
@@ -90,7 +90,10 @@ def process_tfrecord(tfrecord_path: str, out_dir: str) -> None:
             fname = f"sample_{count:05d}.mat"
             out_path = out_dir / fname
 
-            with h5py.File(out_path, "w") as f:
+            with (
+                complete_or_absent(out_path) as part_path,
+                h5py.File(part_path, "w") as f,
+            ):
                 f.create_dataset("V", data=flow)
                 f.create_dataset("I0", data=I0)
                 f.create_dataset("I1", data=I1)
diff --git a/scripts/utils.py b/scripts/utils.py
index fb68a86..08feca2 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -3,10 +3,34 @@
 TODO: add documentation about how to call download_piv_1.py and download_piv_2.py (in the readme)
 """
 
+from collections.abc import Iterator
+from contextlib import contextmanager
 from pathlib import Path
 import urllib.request
 
 
+@contextmanager
+def complete_or_absent(output_path: Path) -> Iterator[Path]:
+    """Write a file next to its final path and move it there once it is complete.
+
+    An interrupted or failed write never leaves a partial file which passes for a
+    complete one.
+
+    Args:
+        output_path: Final path of the file.
+
+    Yields:
+        The path to write to.
+    """
+    part_path = output_path.with_name(output_path.name + ".part")
+    try:
+        yield part_path
+        part_path.replace(output_path)
+    except BaseException:
+        part_path.unlink(missing_ok=True)
+        raise
+
+
 def download_file(url: str, output_path: Path) -> bool:
     """Download a file from a URL to the specified output path.
 
-- 
2.43.0


From c6b36881cdf76637f418b5b3ad0dda1a451a041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 23/29] fix: keep the samples of every TFRecord shard

---
 scripts/download_piv_2.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/scripts/download_piv_2.py b/scripts/download_piv_2.py
index 7c60d30..7574879 100644
--- a/scripts/download_piv_2.py
+++ b/scripts/download_piv_2.py
@@ -32,13 +32,18 @@ def parse_proto(example_proto: tf.Tensor) -> dict:
     return tf.io.parse_single_example(example_proto, feature_description)
 
 
-def process_tfrecord(tfrecord_path: str, out_dir: str) -> None:
+def process_tfrecord(tfrecord_path: str, out_dir: str, first: int = 0) -> int:
     """Process a TFRecord file and convert its contents to .mat files.
 
     TODO: check arguments types
     Args:
         tfrecord_path (str): Path to the TFRecord file.
         out_dir (str): Directory to save the converted .mat files.
+        first (int): Number of the first sample, when the directory already
+            holds those of other TFRecord files.
+
+    Returns:
+        int: Number of the next sample.
     """
     out_dir = Path(out_dir)
     out_dir.mkdir(parents=True, exist_ok=True)
@@ -46,7 +51,7 @@ def process_tfrecord(tfrecord_path: str, out_dir: str) -> None:
     dataset = tf.data.TFRecordDataset(tfrecord_path)
     print(f"Processing {tfrecord_path} -> {out_dir}")
 
-    count = 0
+    count = first
     for raw_record in dataset:
         try:
             example = parse_proto(raw_record)
@@ -55,7 +60,7 @@ def process_tfrecord(tfrecord_path: str, out_dir: str) -> None:
             flow_raw = example["flow"]
 
             if target_raw == b"" or flow_raw == b"":
-                if count == 0:
+                if count == first:
                     print("Keys 'target' or 'flow' not found. Skipping...")
                 continue
 
@@ -106,7 +111,8 @@ def process_tfrecord(tfrecord_path: str, out_dir: str) -> None:
             print(f"Error processing record {count}: {e}")
             continue
 
-    print(f"\nFinished {tfrecord_path}: {count} records.")
+    print(f"\nFinished {tfrecord_path}: {count - first} records.")
+    return count
 
 
 def main(out_dir: str):
@@ -144,9 +150,11 @@ def main(out_dir: str):
         return
 
     # 3. Find TFRecords
-    tfrecords = list(raw_dir.glob("*.tfrecord*"))
+    tfrecords = sorted(raw_dir.glob("*.tfrecord*"))
     print(f"Found {len(tfrecords)} TFRecord files.")
 
+    # The shards of one subset share a directory: number their samples in a row
+    next_sample: dict[Path, int] = {}
     for tfr in tfrecords:
         name = tfr.name
         if "RAFT256" not in name:
@@ -161,7 +169,7 @@ def main(out_dir: str):
         else:
             subdir = packed_dir / "other"
 
-        process_tfrecord(tfr, subdir)
+        next_sample[subdir] = process_tfrecord(tfr, subdir, next_sample.get(subdir, 0))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 7646a12139e4482b3fb87c02286cadd83eee8ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 24/29] fix: refuse to compute speeds from flow fields that are
 not finite

---
 src/synthpix/sanity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 1c6260d..1430a46 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -119,6 +119,11 @@ def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
             else:
                 raise ValueError(f"Unexpected data shape: {data.shape} in file {file}")
 
+            # A NaN would silently drop out of the comparisons below, and with it
+            # all other speeds of its file
+            if not np.all(np.isfinite(data)):
+                raise ValueError(f"Flow fields must be finite, but not so in file {file}")
+
             # Find the min and max speeds along each axis
             running_max_speed_x = max(running_max_speed_x, float(np.max(x_data)))
             running_max_speed_y = max(running_max_speed_y, float(np.max(y_data)))
-- 
2.43.0


From a14b6a4220ac5d68ae271ce41dd19fd4e967a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 25/29] fix: switch to new flow fields only once they are
 adapted

When moving the flow fields to the devices or adapting them failed, the
sampler kept the raw flow fields as current ones, and the next call paired
images of those with the previous output flow fields.
---
 src/synthpix/sampler/synthetic.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 64aa3e4..9b267d2 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -493,10 +493,16 @@ class SyntheticImageSampler(Sampler):
         ):
             scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
 
-            # Reset the batch counter, only now that there are new flow fields
-            self._batches_generated = 0
+            # Shard the flow fields across devices
+            flows = jnp.array(scheduler_batch.flow_fields, device=self.sharding)
+            # Creating the output flow field
+            output_flow_fields, flows = self.flow_field_adapter_jit(flows)
+            output_flow_fields.block_until_ready()
+            flows.block_until_ready()
 
-            self._current_flows = scheduler_batch.flow_fields
+            # Switch to the new flow fields, only now that all of them are ready
+            self.output_flow_fields = output_flow_fields
+            self._current_flows = flows
             self._mask_scheduler = self._per_row(
                 scheduler_batch.mask
             )  # Notice that self._mask refers to the current mask provided by the scheduler
@@ -504,15 +510,7 @@ class SyntheticImageSampler(Sampler):
             # (one entry per image pair, like the files below)
             # While instead self.mask_images refers to the static mask provided at initialization
             self._files_scheduler = self._per_row(scheduler_batch.files)
-
-            # Shard the flow fields across devices
-            self._current_flows = jnp.array(self._current_flows, device=self.sharding)
-            # Creating the output flow field
-            self.output_flow_fields, self._current_flows = self.flow_field_adapter_jit(
-                self._current_flows
-            )
-            self.output_flow_fields.block_until_ready()
-            self._current_flows.block_until_ready()
+            self._batches_generated = 0
 
         # Generate a new random key for image generation
         self._rng, subkey = jax.random.split(self._rng)
-- 
2.43.0


From 0b283f97838c878d4ed8ecba056c93a80ae75648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 26/29] fix: sanity check reads the configuration after
 completing it

The check went on with the configuration from before the missing speeds
were stored, and rejected it for lacking them.
---
 src/synthpix/sanity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 1430a46..d0cab51 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -239,11 +239,12 @@ def main() -> None:  # pragma: no cover
         print(f"Configuration file does not exist: {config_path}")
         sys.exit(1)
 
-    config = load_configuration(config_path)
-
     # 1. Check min/max speeds and offer to fix
     missing_speeds_panel(config_path)
 
+    # The panel may have completed the configuration file
+    config = load_configuration(config_path)
+
     # 2. Try to instantiate the scheduler with the config
     scheduler = None
     try:
-- 
2.43.0


From 8aa7b529dc92b6cf29c205372f754cb5130d7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 27/29] fix: end the prefetch worker when its scheduler is
 deleted

The worker thread held a reference to the prefetching scheduler, so that one
that was let go of without shutdown() was never deleted: its thread stayed
blocked in put() for ever, with the buffer and the wrapped scheduler.
---
 src/synthpix/scheduler/prefetch.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 4b93f66..f7ccdeb 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -4,6 +4,7 @@ import queue
 import sys
 import threading
 import time
+from types import SimpleNamespace
 
 from goggles import get_logger
 
@@ -65,7 +66,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
         self._queue = queue.Queue(maxsize=buffer_size)
         self._stop_event = threading.Event()
-        self._thread = threading.Thread(target=self._worker, daemon=True)
+        self._thread = self._new_thread()
 
         self._started = False
         self._start_lock = threading.Lock()
@@ -149,6 +150,25 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         """
         return self.scheduler.get_flow_fields_shape()
 
+    def _new_thread(self) -> threading.Thread:
+        """Creates the background thread.
+
+        The thread must not refer to this object: a scheduler that is let go of
+        without shutdown() would never be deleted, and its thread never end.
+
+        Returns:
+            The background thread, not yet started.
+        """
+        state = SimpleNamespace(
+            scheduler=self.scheduler,
+            batch_size=self.batch_size,
+            _queue=self._queue,
+            _stop_event=self._stop_event,
+        )
+        return threading.Thread(
+            target=type(self)._worker, args=(state,), daemon=True
+        )
+
     def _start_worker(self) -> None:
         """Starts the background prefetching thread if not already started."""
         with self._start_lock:
@@ -248,7 +268,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
-        self._thread = threading.Thread(target=self._worker, daemon=True)
+        self._thread = self._new_thread()
         self.startup = True
 
         logger.debug("Prefetching thread reinitialized, scheduler reset.")
-- 
2.43.0


From aa83a6556ee755e0ca74921148b4f185d3052530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 28/29] fix: take glob characters in directory names literally

The files of a directory like 'run[1]' were not found: it was silently left out
of the file list, and nothing was converted.
---
 scripts/download_piv_1.py          | 4 +++-
 src/synthpix/scheduler/base.py     | 2 +-
 src/synthpix/scheduler/episodic.py | 5 ++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/download_piv_1.py b/scripts/download_piv_1.py
index 6e0a4dd..d93cc25 100644
--- a/scripts/download_piv_1.py
+++ b/scripts/download_piv_1.py
@@ -253,7 +253,9 @@ def convert(dataset_dir: str, out_dir: str, target_shape: tuple) -> None:
     os.makedirs(out_dir, exist_ok=True)
     # Recursively find all *_flow.* files
     for flow_path in sorted(
-        glob.glob(os.path.join(dataset_dir, "**", "*_flow.*"), recursive=True)
+        glob.glob(
+            os.path.join(glob.escape(dataset_dir), "**", "*_flow.*"), recursive=True
+        )
     ):
         rel_dir = os.path.relpath(os.path.dirname(flow_path), dataset_dir)
         prefix = flow_path.rsplit("_flow", 1)[0]
diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index aa9e2dd..dcd98c8 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -74,7 +74,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         for file_path in file_list:
             if os.path.isdir(file_path):
                 logger.debug(f"Searching for files in {file_path}")
-                pattern = os.path.join(file_path, self._file_pattern)
+                pattern = os.path.join(glob.escape(file_path), self._file_pattern)
                 found_files = sorted(glob.glob(pattern, recursive=True))
                 logger.debug(f"Found {len(found_files)} files in {file_path}")
                 self._file_list.extend(found_files)
diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index 29cb4fc..0ec01b6 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -239,7 +239,10 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         """
         # Extract the leaf directories from the file list
         leaf_dirs = discover_leaf_dirs(self.file_list)
-        dir2files = {d: sorted(glob.glob(os.path.join(d, "*.mat"))) for d in leaf_dirs}
+        dir2files = {
+            d: sorted(glob.glob(os.path.join(glob.escape(d), "*.mat")))
+            for d in leaf_dirs
+        }
 
         # Sanity-check: all directories must contain enough frames
         for d, files in dir2files.items():
-- 
2.43.0


From fecd52aa71a658c6f3e2b2d3abfb4554198af7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 29/29] fix: default the seed of synthetic samplers, as make()
 documents

---
 src/synthpix/sampler/synthetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 9b267d2..5a24bdd 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -613,7 +613,7 @@ class SyntheticImageSampler(Sampler):
                 flow_field_size=tuple(config["flow_field_size"]),
                 resolution=config["resolution"],
                 velocities_per_pixel=config["velocities_per_pixel"],
-                seed=config["seed"],
+                seed=config.get("seed", 0),
                 max_speed_x=config["max_speed_x"],
                 max_speed_y=config["max_speed_y"],
                 min_speed_x=config["min_speed_x"],
-- 
2.43.0

