From 1ca3dec012b5591e41b7c148996959a1bfc4b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 01/27] fix: range(only_new_items=True) no longer takes the
 reader lock twice

The nested acquisition deadlocked with a writer that queued up in between, and a key
function that rejects None with anything but TypeError escaped to the caller.
---
 stream2py/buffer_reader.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..203f42a 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,9 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above: last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From 42de54d37a255d4e460d9ea811df100390965af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 02/27] fix: auto_drop=False works with an unlimited buffer
 (maxlen=None)

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..5b9275c 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -253,7 +253,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From 8901d8b2c3047e1f2da68c9bac500efedf1a9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 03/27] fix: stop() does not leave the source open for the rest
 of a long idle sleep

---
 stream2py/stream_buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 5b9275c..c86521e 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -265,7 +265,8 @@ class StreamBuffer:
                 if data is not None:
                     self.source_buffer.append(data)
                 else:
-                    time.sleep(self._sleep_time_on_read_none_s)
+                    # a sleep that a stop cuts short
+                    self._stop_event.wait(self._sleep_time_on_read_none_s)
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
-- 
2.43.0


From 750a688134f6c65a63feabafb0d0296005ccd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 04/27] fix: a restart waits until the previous session has
 closed the source

A reading thread stuck in a slow read survived into the next session: two threads read
the same source, the late item went to the new buffer and the late close hit the new
session.
---
 stream2py/stream_buffer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index c86521e..738304a 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -280,6 +280,12 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        if (
+            self._read_to_buffer_thread is not None
+            and self._read_to_buffer_thread.is_alive()
+        ):
+            # the previous session still has a read pending and the source to close
+            self._read_to_buffer_thread.join()
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From 89b9d3033fc1f82cb2ec964b055c93de3f049211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 05/27] fix: next(stream_buffer) reads the new session after a
 failed one is restarted

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 738304a..3f76ab7 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -287,6 +287,7 @@ class StreamBuffer:
             # the previous session still has a read pending and the source to close
             self._read_to_buffer_thread.join()
         self.source_buffer = None
+        self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
 
-- 
2.43.0


From d1f6861750f0d22c44431c202cb6920867ba0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 06/27] fix: a failed start closes what it opened and is not
 reported as running

---
 stream2py/stream_buffer.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 3f76ab7..cb18ebd 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,8 +180,18 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
-            self._read_to_buffer_thread.start()
+            try:
+                self._open()
+                try:
+                    self._read_to_buffer_thread.start()
+                except RuntimeError:  # RuntimeError: can't start new thread
+                    self._close_after_failed_start()
+                    raise
+            except BaseException:
+                # a failed start leaves nothing behind
+                self._stop_event.set()
+                self.source_buffer = None
+                raise
 
     def stop(self):
         """Stop reading and close source_reader"""
@@ -296,8 +306,13 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
+        try:
+            source_reader_info = self.source_reader.info
+        except BaseException:
+            self._close_after_failed_start()
+            raise
         self.source_buffer = _SourceBuffer(
-            source_reader_info=self.source_reader.info,
+            source_reader_info=source_reader_info,
             stop_event=self._stop_event,
             key=self.source_reader.key,
             maxlen=self._maxlen,
@@ -306,6 +321,12 @@ class StreamBuffer:
             ),
         )
 
+    def _close_after_failed_start(self):
+        try:
+            self.source_reader.close()
+        except Exception as e:
+            logger.error(e)
+
     # def _mk_contextualized_iterator(self):
     #     """Return next item (entering the context beforehand, if not running).
     #     This method is meant to be called under context so that a clean exit is assured.
-- 
2.43.0


From cd3d5b86d0dda9c1e39cb236da92e4ee88e151c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 07/27] fix: the last items before a stop are not lost to a
 consumer about to be told the end

---
 stream2py/buffer_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 203f42a..1c229e2 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,8 +150,6 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -164,11 +162,15 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # Looked up before reading: items stored between a read and a later look at the
+        # stop event would be missed
+        was_stopped = self.is_stopped
+
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and was_stopped:
             raise StopIteration
 
         return result
@@ -372,6 +374,7 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                was_stopped = self.is_stopped
                 _read = self.read(
                     n,
                     peek=peek,
@@ -381,7 +384,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif was_stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 5328b994285afe6d0f39a9594e0ad6ecd4569e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 08/27] fix: strict_n accepts a read of exactly the number of
 items available

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 1c229e2..3cd2270 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -406,7 +406,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From abaf5e79153c2f0ad15865414937113f858078a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 09/27] fix: read() honours the peek default the reader was
 made with

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3cd2270..3af2fe1 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -360,8 +360,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From bcc6d3ea56ffb9a94c74d606fe6e285fff40823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 10/27] fix: closing any reader works and counts once

---
 stream2py/buffer_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3af2fe1..6f99594 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -80,7 +80,7 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
+    onclose: Callable = None
     onopen: Callable
 
     def __init__(
@@ -445,8 +445,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From d36250c23ebb5fa6f269af45370746c124d91d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 11/27] fix: an attached reader reports the info of the session
 it now reads

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index cb18ebd..e938899 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -76,6 +76,7 @@ class _SourceBuffer:
     def attach_reader(self, reader):
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
+        reader._source_reader_info = self._source_reader_info
 
 
 class StreamBuffer:
-- 
2.43.0


From 7a2b1c3ed2dd00d55fbc59370d7621e64395b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 12/27] fix: changing the key of a SortedDeque keeps its maxlen

---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 4e6d6236990a36e7fe39307808a71f1f43128958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 13/27] fix: mk_stream_buffer does not enumerate 'no data yet'
 as an item

---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..17394f0 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:  # no data yet
+                return None
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From b90c1560a57567a2339bf27ac06ca51c5f5fa1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 14/27] fix: an interrupted wait for the reader-writer lock
 leaves it as it was

The lock was released although it had not been acquired, or its internal locks and
counters stayed taken for good.
---
 stream2py/utility/locked_sorted_deque.py |  4 ++--
 stream2py/utility/reader_writer_lock.py  | 23 ++++++++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/stream2py/utility/locked_sorted_deque.py b/stream2py/utility/locked_sorted_deque.py
index 17d1d12..a516de3 100644
--- a/stream2py/utility/locked_sorted_deque.py
+++ b/stream2py/utility/locked_sorted_deque.py
@@ -39,16 +39,16 @@ class RWLockSortedDeque(RWLock):
 
     @contextmanager
     def reader_lock(self) -> Generator[SortedDeque, None, None]:
+        self.reader_acquire()
         try:
-            self.reader_acquire()
             yield self._sorted_deque
         finally:
             self.reader_release()
 
     @contextmanager
     def writer_lock(self):
+        self.writer_acquire()
         try:
-            self.writer_acquire()
             yield self._sorted_deque
         finally:
             self.writer_release()
diff --git a/stream2py/utility/reader_writer_lock.py b/stream2py/utility/reader_writer_lock.py
index fda1300..f4db0d3 100644
--- a/stream2py/utility/reader_writer_lock.py
+++ b/stream2py/utility/reader_writer_lock.py
@@ -39,18 +39,20 @@ class RWLock:
         cases (see [2] for a discussion)"""
 
     def reader_acquire(self):
-        self.__readers_queue.acquire()
-        self.__no_readers.acquire()
-        self.__read_switch.acquire(self.__no_writers)
-        self.__no_readers.release()
-        self.__readers_queue.release()
+        with self.__readers_queue:
+            with self.__no_readers:
+                self.__read_switch.acquire(self.__no_writers)
 
     def reader_release(self):
         self.__read_switch.release(self.__no_writers)
 
     def writer_acquire(self):
         self.__write_switch.acquire(self.__no_readers)
-        self.__no_writers.acquire()
+        try:
+            self.__no_writers.acquire()
+        except BaseException:
+            self.__write_switch.release(self.__no_readers)
+            raise
 
     def writer_release(self):
         self.__no_writers.release()
@@ -66,11 +68,10 @@ class _LightSwitch:
         self.__mutex = threading.Lock()
 
     def acquire(self, lock):
-        self.__mutex.acquire()
-        self.__counter += 1
-        if self.__counter == 1:
-            lock.acquire()
-        self.__mutex.release()
+        with self.__mutex:
+            if self.__counter == 0:
+                lock.acquire()
+            self.__counter += 1
 
     def release(self, lock):
         self.__mutex.acquire()
-- 
2.43.0


From 5499bfbf9408d645fdeae94da687a5f525281657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 15/27] fix: a closed or failed StreamSource can be reopened by
 opening another reader

---
 stream2py/stream_source.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..16e95db 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -101,9 +101,12 @@ class StreamSource(Source, metaclass=ABCMeta):
         return self
 
     def _ensure_buffer(self):
-        if not self._stream_buffer:
-            self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
-            self._stream_buffer.start()
+        stream_buffer = self._stream_buffer
+        if not stream_buffer:
+            stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if not stream_buffer.is_running:  # not started yet, closed or failed
+            stream_buffer.start()
+        self._stream_buffer = stream_buffer
 
     def _handle_reader_open(self):
         self._open_readers += 1
-- 
2.43.0


From 54eb1ed695e83024542edf8a5d11cb553e2f7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 16/27] fix: StreamSource readers can be opened and closed from
 several threads

---
 stream2py/stream_source.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 16e95db..2061b34 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -4,6 +4,7 @@ as next(), range(), head(), tail().  Each BufferReader instance has it's own cur
 what data was last seen."""
 
 from abc import ABCMeta, abstractmethod
+import threading
 import time
 from typing import Optional, Union
 
@@ -100,6 +101,14 @@ class StreamSource(Source, metaclass=ABCMeta):
         )
         return self
 
+    @property
+    def _readers_lock(self):
+        """Serializes opening and closing readers.
+
+        Made on first use because subclasses do not have to call __init__.
+        """
+        return self.__dict__.setdefault('_readers_rlock', threading.RLock())
+
     def _ensure_buffer(self):
         stream_buffer = self._stream_buffer
         if not stream_buffer:
@@ -112,9 +121,10 @@ class StreamSource(Source, metaclass=ABCMeta):
         self._open_readers += 1
 
     def _handle_reader_closed(self):
-        self._open_readers -= 1
-        if self._open_readers <= 0:
-            self.exit()
+        with self._readers_lock:
+            self._open_readers -= 1
+            if self._open_readers <= 0:
+                self.exit()
 
     def open_reader(self, read_size=1, strict_n=False, ignore_no_item_found=False):
         """Instantiates a reader.
@@ -125,13 +135,14 @@ class StreamSource(Source, metaclass=ABCMeta):
         :param ignore_no_item_found: if True, by default return None when no next item
             instead of raising exception during a read
         """
-        self._ensure_buffer()
-        new_reader = self._stream_buffer.mk_reader(
-            read_size=read_size,
-            strict_n=strict_n,
-            ignore_no_item_found=ignore_no_item_found,
-        )
-        self._handle_reader_open()
+        with self._readers_lock:
+            self._ensure_buffer()
+            new_reader = self._stream_buffer.mk_reader(
+                read_size=read_size,
+                strict_n=strict_n,
+                ignore_no_item_found=ignore_no_item_found,
+            )
+            self._handle_reader_open()
         new_reader.open()
         new_reader.onclose = self._handle_reader_closed
         return new_reader
-- 
2.43.0


From 212ce3376a1f3cdcda82109dca95bd298130665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 17/27] fix: StreamSource: direct iteration and get_timestamp
 no longer raise AttributeError

---
 stream2py/stream_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 2061b34..91ca1c7 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -72,8 +72,6 @@ class StreamSource(Source, metaclass=ABCMeta):
             _next = self.read()
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return None
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -170,6 +168,8 @@ class StreamSource(Source, metaclass=ABCMeta):
         """
         return None
 
+    timestamp_seconds_to_unit_conversion: Union[int, float] = 1e6  # to microseconds
+
     @classmethod
     def get_timestamp(cls) -> int:
         """Get timestamp of now as int microseconds
-- 
2.43.0


From bd7d654cdae78243ceba930feba61af18fe668c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 18/27] fix: HTTP stream survives wall clock steps and reads
 within one clock tick

---
 stream2py/sources/http.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..91acdc7 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import math
 import urllib.request
 from typing import Union, Optional
 import time
@@ -102,6 +103,7 @@ class HTTPResponseReader(SourceReader):
             self._url, headers=self._init_kwargs['headers']
         )
         self._response = urllib.request.urlopen(request)
+        self._last_timestamp = 0
 
     def close(self):
         if self._response:
@@ -113,7 +115,9 @@ class HTTPResponseReader(SourceReader):
         """
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
-        timestamp = time.time()
+        # keys must increase, also when the wall clock does not
+        timestamp = max(time.time(), math.nextafter(self._last_timestamp, math.inf))
+        self._last_timestamp = timestamp
         if encoding:
             result = result.decode(encoding)
         return timestamp, result
-- 
2.43.0


From bd9a479d0a4a701dfe9725cc81002448b98a1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 19/27] fix: HTTP stream ends its items with the body and
 decodes characters cut by the network

read() produced (timestamp, b'') forever after the end of the body, and decoding each
chunk on its own raised on a multi-byte character split between two chunks.
---
 stream2py/sources/http.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index 91acdc7..eec6ef3 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import codecs
 import math
 import urllib.request
 from typing import Union, Optional
@@ -104,6 +105,8 @@ class HTTPResponseReader(SourceReader):
         )
         self._response = urllib.request.urlopen(request)
         self._last_timestamp = 0
+        encoding = self._init_kwargs.get('encoding')
+        self._decoder = codecs.getincrementaldecoder(encoding)() if encoding else None
 
     def close(self):
         if self._response:
@@ -113,15 +116,23 @@ class HTTPResponseReader(SourceReader):
     def read(self):
         """Returns a chunk of raw binary data.
         """
-        encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
+        if self._decoder is not None:
+            result = self._decode(result)
+        if not result:  # end of the body
+            return None
         # keys must increase, also when the wall clock does not
         timestamp = max(time.time(), math.nextafter(self._last_timestamp, math.inf))
         self._last_timestamp = timestamp
-        if encoding:
-            result = result.decode(encoding)
         return timestamp, result
 
+    def _decode(self, data):
+        text = self._decoder.decode(data, final=not data)
+        while data and not text:  # got only a part of a character
+            data = self._response.read(*self.response_read_args)
+            text = self._decoder.decode(data, final=not data)
+        return text
+
 
 def _test_run_HTTPResponseReader(url, **kwargs):
     """Run HTTPResponseReader and print some stuff
-- 
2.43.0


From 793b731542c61c596968942af99816a0edeb77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 20/27] fix: an invalid maxlen leaves a SortedDeque as it was

---
 stream2py/utility/sorted_deque.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index e454d70..32612cd 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -19,6 +19,7 @@ class SortedDeque(SortedCollection):
     """
 
     def __init__(self, iterable=(), key=None, maxlen=None):
+        deque(maxlen=maxlen)  # an invalid maxlen raises before anything changes
         SortedCollection.__init__(self, iterable, key)
         self._keys = deque(self._keys, maxlen=maxlen)
         self._items = deque(self._items, maxlen=maxlen)
-- 
2.43.0


From f6a6fc3347edd85afee465852673b6c3f02dfdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 21/27] fix: an interrupted release of the reader-writer lock
 still releases it

---
 stream2py/utility/reader_writer_lock.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/reader_writer_lock.py b/stream2py/utility/reader_writer_lock.py
index f4db0d3..29f0239 100644
--- a/stream2py/utility/reader_writer_lock.py
+++ b/stream2py/utility/reader_writer_lock.py
@@ -74,11 +74,19 @@ class _LightSwitch:
             self.__counter += 1
 
     def release(self, lock):
-        self.__mutex.acquire()
+        interrupt = None
+        while True:
+            try:
+                self.__mutex.acquire()
+                break
+            except BaseException as e:  # raised once the switch has been released
+                interrupt = e
         self.__counter -= 1
         if self.__counter == 0:
             lock.release()
         self.__mutex.release()
+        if interrupt is not None:
+            raise interrupt
 
 
 ##
-- 
2.43.0


From 23cdb4872e45668ca99766c291fe5f763ef322e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 22/27] fix: an interrupt while a shared source's reader waits
 to close does not leave the source open

---
 stream2py/stream_source.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 91ca1c7..408c56f 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -119,10 +119,21 @@ class StreamSource(Source, metaclass=ABCMeta):
         self._open_readers += 1
 
     def _handle_reader_closed(self):
-        with self._readers_lock:
+        interrupt = None
+        while True:
+            try:
+                self._readers_lock.acquire()
+                break
+            except BaseException as e:  # raised once the reader has been counted
+                interrupt = e
+        try:
             self._open_readers -= 1
             if self._open_readers <= 0:
                 self.exit()
+        finally:
+            self._readers_lock.release()
+        if interrupt is not None:
+            raise interrupt
 
     def open_reader(self, read_size=1, strict_n=False, ignore_no_item_found=False):
         """Instantiates a reader.
-- 
2.43.0


From bc647d85fe9098037839ead33ff247724f711373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 23/27] fix: a started stream reports its source's info while
 its buffer is empty

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e938899..ca660c3 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -234,7 +234,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From d79701b7154e19d3f107b4c042fdf9499a6b53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 24/27] fix: asking for a stream's info while it restarts does
 not fail

---
 stream2py/stream_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index ca660c3..f2d3610 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -234,8 +234,9 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer is not None:
-            return self.source_buffer.source_reader_info
+        source_buffer = self.source_buffer
+        if source_buffer is not None:
+            return source_buffer.source_reader_info
         return None
 
     @property
-- 
2.43.0


From 0568919b911e8a55547d1aaeef5a692efbd3f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:22 +0000
Subject: [PATCH 25/27] fix: HTTPResponseReader sends the method and body it
 was given

---
 stream2py/sources/http.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index eec6ef3..9576a9f 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -54,6 +54,9 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()
+        self._body = body
 
         self._url = url
         self._n_bytes_read = 0
@@ -101,7 +104,10 @@ class HTTPResponseReader(SourceReader):
 
     def open(self):
         request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
+            self._url,
+            data=self._body,
+            headers=self._init_kwargs['headers'],
+            method=self._init_kwargs['method'].upper(),
         )
         self._response = urllib.request.urlopen(request)
         self._last_timestamp = 0
-- 
2.43.0


From 06a148ae6a3680a421fa8d9ef9e640d60281d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 26/27] fix: a start that fails after opening closes the source
 again whatever failed

---
 stream2py/stream_buffer.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index f2d3610..0603c38 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -309,19 +309,18 @@ class StreamBuffer:
         source_reader.info"""
         self.source_reader.open()
         try:
-            source_reader_info = self.source_reader.info
+            self.source_buffer = _SourceBuffer(
+                source_reader_info=self.source_reader.info,
+                stop_event=self._stop_event,
+                key=self.source_reader.key,
+                maxlen=self._maxlen,
+                buffer_reader_class=getattr(
+                    self.source_reader, 'buffer_reader_class', BufferReader
+                ),
+            )
         except BaseException:
             self._close_after_failed_start()
             raise
-        self.source_buffer = _SourceBuffer(
-            source_reader_info=source_reader_info,
-            stop_event=self._stop_event,
-            key=self.source_reader.key,
-            maxlen=self._maxlen,
-            buffer_reader_class=getattr(
-                self.source_reader, 'buffer_reader_class', BufferReader
-            ),
-        )
 
     def _close_after_failed_start(self):
         try:
-- 
2.43.0


From 78f0188608e77420c24342c4166e67b3c398ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 27/27] fix: a restart that waits for a pending read does not
 hold the start lock

---
 stream2py/stream_buffer.py | 43 ++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 0603c38..c1298ca 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -177,22 +177,31 @@ class StreamBuffer:
 
     def start(self):
         """Open and start reading from source_reader into buffer"""
-        with self.start_lock:
-            if self._stop_event and not self._stop_event.is_set():
-                self.stop()
-            self._set_read_to_buffer_thread_and_source_buffer()
+        while True:
+            with self.start_lock:
+                if self._stop_event and not self._stop_event.is_set():
+                    self.stop()
+                previous = self._read_to_buffer_thread
+                if previous is None or not previous.is_alive():
+                    self._start()
+                    return
+            # the previous session still has a read pending and the source to close
+            previous.join()
+
+    def _start(self):
+        self._set_read_to_buffer_thread_and_source_buffer()
+        try:
+            self._open()
             try:
-                self._open()
-                try:
-                    self._read_to_buffer_thread.start()
-                except RuntimeError:  # RuntimeError: can't start new thread
-                    self._close_after_failed_start()
-                    raise
-            except BaseException:
-                # a failed start leaves nothing behind
-                self._stop_event.set()
-                self.source_buffer = None
+                self._read_to_buffer_thread.start()
+            except RuntimeError:  # RuntimeError: can't start new thread
+                self._close_after_failed_start()
                 raise
+        except BaseException:
+            # a failed start leaves nothing behind
+            self._stop_event.set()
+            self.source_buffer = None
+            raise
 
     def stop(self):
         """Stop reading and close source_reader"""
@@ -292,12 +301,6 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
-        if (
-            self._read_to_buffer_thread is not None
-            and self._read_to_buffer_thread.is_alive()
-        ):
-            # the previous session still has a read pending and the source to close
-            self._read_to_buffer_thread.join()
         self.source_buffer = None
         self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
-- 
2.43.0

