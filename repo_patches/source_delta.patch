From fe0a15b0f11f448d127c7f5e94fea6a16f782120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 01/33] fix: reject seeks that resolve to a negative position

---
 crates/stream-download/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..a1edc41 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -432,12 +432,12 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                add_seek_offset(self.output_reader.stream_position()?, position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    add_seek_offset(length, position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
@@ -516,6 +516,15 @@ impl<P: StorageProvider> StreamDownload<P> {
     }
 }
 
+fn add_seek_offset(base: u64, offset: i64) -> io::Result<u64> {
+    base.checked_add_signed(offset).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 /// Error returned when initializing a stream.
 #[derive(thiserror::Error, Educe)]
 #[educe(Debug)]
-- 
2.43.0


From eaad1e1aa45fd5337abca06f82e591b29c58679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 02/33] fix: never read unwritten or out of range bytes from
 memory storage

---
 crates/stream-download/src/storage/memory.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..351a08b 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -60,9 +60,16 @@ impl Read for MemoryStorage {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let inner = self.inner.read();
 
-        let available_len =
-            (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
+        // The buffer may be preallocated, so only the part before the furthest written position
+        // is considered readable
+        let available_len = self
+            .written
+            .load(Ordering::SeqCst)
+            .saturating_sub(self.position);
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
@@ -85,6 +92,9 @@ impl Seek for MemoryStorage {
 
 impl Write for MemoryStorage {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let mut inner = self.inner.write();
 
         if self.position + buf.len() > inner.len() {
@@ -94,7 +104,7 @@ impl Write for MemoryStorage {
         inner[self.position..self.position + buf.len()].copy_from_slice(buf);
 
         self.position += buf.len();
-        self.written.fetch_add(buf.len(), Ordering::SeqCst);
+        self.written.fetch_max(self.position, Ordering::SeqCst);
         Ok(buf.len())
     }
 
-- 
2.43.0


From 35307fcdfdf305da77b5a9ead4aecffdba978e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 03/33] fix: reject negative seeks in memory and bounded
 storage

---
 crates/stream-download/src/lib.rs             | 2 +-
 crates/stream-download/src/storage/bounded.rs | 6 ++++--
 crates/stream-download/src/storage/memory.rs  | 8 +++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index a1edc41..3dc6962 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -516,7 +516,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     }
 }
 
-fn add_seek_offset(base: u64, offset: i64) -> io::Result<u64> {
+pub(crate) fn add_seek_offset(base: u64, offset: i64) -> io::Result<u64> {
     base.checked_add_signed(offset).ok_or_else(|| {
         io::Error::new(
             io::ErrorKind::InvalidInput,
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..fe11d28 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -29,7 +29,7 @@ use parking_lot::Mutex;
 use tracing::{debug, instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
-use crate::WrapIoResult;
+use crate::{WrapIoResult, add_seek_offset};
 
 /// Creates a [`BoundedStorageReader`] with a fixed size.
 #[derive(Clone, Debug)]
@@ -251,7 +251,9 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => {
+            Ok(add_seek_offset(current_position as u64, from_current)? as usize)
+        }
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 351a08b..d70cdfe 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -10,7 +10,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use parking_lot::RwLock;
 
 use super::StorageProvider;
-use crate::WrapIoResult;
+use crate::{WrapIoResult, add_seek_offset};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
@@ -81,8 +81,10 @@ impl Seek for MemoryStorage {
         let len = self.inner.read().len();
         let new_position = match position {
             SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
+            SeekFrom::Current(from_current) => {
+                add_seek_offset(self.position as u64, from_current)? as usize
+            }
+            SeekFrom::End(from_end) => add_seek_offset(len as u64, from_end)? as usize,
         };
 
         self.position = new_position;
-- 
2.43.0


From 74e69ffee2e5496e70628fb5eec529ebc4e894d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 04/33] fix: ignore empty chunks instead of panicking in
 progress reporting

---
 crates/stream-download/src/source/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..c141770 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -376,6 +376,10 @@ where
             }
         };
 
+        if bytes.as_ref().is_some_and(Bytes::is_empty) {
+            return Ok(DownloadAction::Continue);
+        }
+
         if !self.prefetch_complete {
             return self
                 .handle_prefetch(stream, bytes, self.prefetch_start_position, download_start)
-- 
2.43.0


From 5820a0661b933594f063e4446b6b9696bd813ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 05/33] fix: only invoke the reconnect callback after a
 successful reconnect

---
 crates/stream-download/src/source/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c141770..da44580 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -275,8 +275,11 @@ where
         // We already know there's a network issue if we're attempting a reconnect.
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
-        let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
-        if reconnect_pos
+        let reconnect_res = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos))
+            .await
+            .map_err(io::Error::from)
+            .flatten();
+        if reconnect_res
             .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
             .is_ok()
             && let Some(on_reconnect) = &mut self.on_reconnect
-- 
2.43.0


From 7af8f816476d2f2edaa0cc1bb7b1b78f44cf1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 06/33] fix: report the prefetched chunk from its actual start

---
 crates/stream-download/src/source/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index da44580..5892969 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -6,6 +6,7 @@ use std::error::Error;
 use std::fmt::Debug;
 use std::future;
 use std::io::{self, SeekFrom};
+use std::ops::Range;
 use std::time::{Duration, Instant};
 
 use bytes::{BufMut, Bytes, BytesMut};
@@ -327,7 +328,12 @@ where
             self.prefetch_complete = true;
         }
 
-        self.report_prefetch_progress(stream, stream_position, download_start, written);
+        self.report_prefetch_progress(
+            stream,
+            start_position..stream_position,
+            download_start,
+            written,
+        );
         Ok(DownloadAction::Continue)
     }
 
@@ -490,15 +496,15 @@ where
     fn report_prefetch_progress(
         &mut self,
         stream: &S,
-        stream_position: u64,
+        current_chunk: Range<u64>,
         download_start: Instant,
         chunk_size: usize,
     ) {
         self.report_progress(
             stream,
             StreamState {
-                current_position: stream_position,
-                current_chunk: (0..stream_position),
+                current_position: current_chunk.end,
+                current_chunk,
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Prefetching {
                     target: self.prefetch_bytes,
-- 
2.43.0


From b79f754ae493e480ae4851fd32223f681b53b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 07/33] fix: never request inverted or already downloaded
 ranges when seeking

---
 crates/stream-download/src/source/mod.rs | 35 +++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 5892969..d655d22 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -238,33 +238,36 @@ where
         if self.should_seek(stream, position)? {
             debug!("seek position not yet downloaded");
             let current_stream_position = self.writer.stream_position()?;
-            if self.prefetch_complete {
-                debug!("re-starting prefetch");
-                self.prefetch_start_position = position;
-                self.prefetch_complete = false;
-            } else {
+            let restart_prefetch = self.prefetch_complete;
+            if !self.prefetch_complete {
                 debug!("seeking during prefetch, ending prefetch early");
                 self.downloaded
                     .add(self.prefetch_start_position..current_stream_position);
                 self.prefetch_complete = true;
             }
-            if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
+            let (seek_start, seek_end) = if let Some(content_length) = self.content_length {
                 debug!(
-                    start = min_start_position,
+                    start = position,
                     end = content_length,
                     "checking for seek range",
                 );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
+                if let Some(gap) = self.downloaded.next_gap(position..content_length) {
+                    (gap.start, Some(gap.end))
+                } else if position >= content_length {
+                    (position, Some(content_length))
+                } else {
+                    // Everything from here on is already available
+                    return Ok(());
                 }
             } else {
-                self.seek(stream, position, None).await?;
+                (position, None)
+            };
+            debug!(seek_start, seek_end, "requesting seek range");
+            self.seek(stream, seek_start, seek_end).await?;
+            if restart_prefetch {
+                debug!("re-starting prefetch");
+                self.prefetch_start_position = seek_start;
+                self.prefetch_complete = false;
             }
         }
         Ok(())
-- 
2.43.0


From 74b054218c2974e119c0751d3fed1d72b10305c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 08/33] fix: resolve the stream handle only once the download
 task has finished

---
 crates/stream-download/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 3dc6962..1cb8a8d 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -65,6 +65,7 @@ pub struct StreamDownload<P: StorageProvider> {
     output_reader: P::Reader,
     handle: SourceHandle,
     download_task_cancellation_token: CancellationToken,
+    download_task_finished: CancellationToken,
     cancel_on_drop: bool,
     content_length: Option<u64>,
     storage_capacity: Option<usize>,
@@ -373,7 +374,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     /// the stream remotely.
     pub fn handle(&self) -> StreamHandle {
         StreamHandle {
-            finished: self.download_task_cancellation_token.clone(),
+            finished: self.download_task_finished.clone(),
         }
     }
 
@@ -405,10 +406,15 @@ impl<P: StorageProvider> StreamDownload<P> {
         let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
         let handle = source.source_handle();
 
+        let finished = CancellationToken::new();
         tokio::spawn({
             let cancellation_token = cancellation_token.clone();
+            // Cancels the token once the task ends for any reason
+            let finished_guard = finished.clone().drop_guard();
             async move {
+                let _finished_guard = finished_guard;
                 source.download(stream).await;
+                drop(source);
                 cancellation_token.cancel();
                 debug!("download task finished");
             }
@@ -418,6 +424,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             output_reader: reader,
             handle,
             download_task_cancellation_token: cancellation_token,
+            download_task_finished: finished,
             cancel_on_drop,
             content_length,
             storage_capacity,
-- 
2.43.0


From 35268d033b62a406d2cc58ad6118b45d8cd7345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 09/33] fix: observe cancellation in every state of the
 download task

---
 crates/stream-download/src/source/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index d655d22..e0be760 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -172,7 +172,17 @@ where
 
     #[instrument(skip_all)]
     pub(crate) async fn download(&mut self, mut stream: S) {
-        let res = self.download_inner(&mut stream).await;
+        let cancellation_token = self.cancellation_token.clone();
+        let res = tokio::select! {
+            biased;
+            // The token has to be observed at every await point, including the ones where the task
+            // is waiting for the reader or for the source to seek or reconnect
+            () = cancellation_token.cancelled() => {
+                debug!("received cancellation request, stopping download task");
+                Ok(StreamOutcome::CancelledByUser)
+            }
+            res = self.download_inner(&mut stream) => res,
+        };
         let (res, stream_res) = match res {
             Ok(StreamOutcome::Completed) => (Ok(()), StreamOutcome::Completed),
             Ok(StreamOutcome::CancelledByUser) => (
@@ -224,10 +234,6 @@ where
                         break;
                     }
                 }
-                () = self.cancellation_token.cancelled() => {
-                    debug!("received cancellation request, stopping download task");
-                    return Ok(StreamOutcome::CancelledByUser);
-                }
             };
         }
         self.report_download_complete(stream, download_start)?;
-- 
2.43.0


From c4ad77c0d34908951b482ec62c39c9fdd7ae5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 10/33] fix: don't wake readers at the end of the stream before
 its outcome is known

---
 crates/stream-download/src/source/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index e0be760..8212cc9 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -361,7 +361,6 @@ where
             }
         }
         self.writer.flush()?;
-        self.signal_download_complete();
         Ok(DownloadAction::Complete)
     }
 
-- 
2.43.0


From d0bea9d8e3247f2025534e6f24388de613a286e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 11/33] fix: write the rest of a partially prefetched chunk
 without waiting for the next one

---
 crates/stream-download/src/source/mod.rs | 33 ++++++++++++------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 8212cc9..2d83583 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -9,7 +9,7 @@ use std::io::{self, SeekFrom};
 use std::ops::Range;
 use std::time::{Duration, Instant};
 
-use bytes::{BufMut, Bytes, BytesMut};
+use bytes::Bytes;
 use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
     DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SourceHandle,
@@ -130,7 +130,6 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     on_reconnect: Option<ReconnectFn<S>>,
     prefetch_complete: bool,
     prefetch_start_position: u64,
-    remaining_bytes: Option<Bytes>,
     cancellation_token: CancellationToken,
 }
 
@@ -165,7 +164,6 @@ where
             on_progress: settings.on_progress,
             on_reconnect: settings.on_reconnect,
             prefetch_start_position: 0,
-            remaining_bytes: None,
             cancellation_token,
         }
     }
@@ -329,7 +327,6 @@ where
                 bytes_len = bytes.len(),
                 "failed to write all during prefetch"
             );
-            self.remaining_bytes = Some(bytes.slice(written..));
         }
         if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
             self.downloaded.add(start_position..stream_position);
@@ -343,6 +340,11 @@ where
             download_start,
             written,
         );
+        if partial_write {
+            return self
+                .handle_download(stream, bytes.slice(written..), download_start)
+                .await;
+        }
         Ok(DownloadAction::Continue)
     }
 
@@ -403,19 +405,18 @@ where
                 .await;
         }
 
-        let bytes = match (self.remaining_bytes.take(), bytes) {
-            (Some(remaining), Some(bytes)) => {
-                let mut combined = BytesMut::new();
-                combined.put(remaining);
-                combined.put(bytes);
-                combined.freeze()
-            }
-            (Some(remaining), None) => remaining,
-            (None, Some(bytes)) => bytes,
-            (None, None) => {
-                return self.finish_or_find_next_gap(stream).await;
-            }
+        let Some(bytes) = bytes else {
+            return self.finish_or_find_next_gap(stream).await;
         };
+        self.handle_download(stream, bytes, download_start).await
+    }
+
+    async fn handle_download(
+        &mut self,
+        stream: &S,
+        bytes: Bytes,
+        download_start: Instant,
+    ) -> io::Result<DownloadAction> {
         let bytes_len = bytes.len();
         let new_position = self.write(bytes).await?;
         self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
-- 
2.43.0


From 41c735981f2e3cd27d39a4853575bdb3f934bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 12/33] fix: only return reads once the whole requested range
 has been downloaded

Reads could return before the data between the read position and the requested
position was available if the stream was downloaded out of order, wake-ups were
lost between checking for a position and waiting for it, and seek requests were
dropped or never observed while the download task was waiting for the reader.
---
 crates/stream-download/src/lib.rs           |  46 +++--
 crates/stream-download/src/source/handle.rs | 155 +++++++++++-----
 crates/stream-download/src/source/mod.rs    | 194 ++++++++++++--------
 3 files changed, 267 insertions(+), 128 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 1cb8a8d..2c224c2 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -9,7 +9,7 @@ use std::io::{self, Read, Seek, SeekFrom};
 
 use educe::Educe;
 pub use settings::*;
-use source::handle::SourceHandle;
+use source::handle::{SourceHandle, WaitResult};
 use source::{DecodeError, Source, SourceStream};
 use storage::StorageProvider;
 use tokio_util::sync::CancellationToken;
@@ -576,22 +576,38 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             requested_position = requested_position
         );
 
-        if let Some(closest_set) = self.handle.get_downloaded_at_position(stream_position) {
-            trace!(
-                downloaded_range = format!("{closest_set:?}"),
-                "current position already downloaded"
+        let mut requested = stream_position..requested_position.max(stream_position);
+        // The stream may be downloaded out of order if there were any seeks, so we have to make
+        // sure there are no gaps in the requested range.
+        while let Some(gap) = self.handle.next_gap(&requested) {
+            debug!(
+                missing = format!("{gap:?}"),
+                "requested position not yet downloaded"
             );
-            if closest_set.end >= requested_position {
-                trace!("requested position already downloaded");
-                return self.handle_read(buf);
+            let result = self.handle.wait_for_range(requested.clone());
+            self.check_for_failure()?;
+            if result == WaitResult::PositionReached {
+                continue;
+            }
+            let available_end = self
+                .handle
+                .next_gap(&requested)
+                .map_or(requested.end, |gap| gap.start);
+            if available_end > stream_position {
+                requested.end = available_end;
+            } else if result == WaitResult::StreamDone {
+                if self.handle.is_downloaded_after(stream_position) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        format!(
+                            "position {stream_position} was skipped and is no longer available"
+                        ),
+                    ));
+                }
+                requested.end = stream_position;
             }
-            debug!("requested position not yet downloaded");
-        } else {
-            debug!("stream position not yet downloaded");
         }
-
-        self.handle.wait_for_position(requested_position);
-        self.check_for_failure()?;
+        let available_len = (requested.end - requested.start) as usize;
         debug!(
             current_position = stream_position,
             requested_position = requested_position,
@@ -599,7 +615,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             "reached requested position"
         );
 
-        self.handle_read(buf)
+        self.handle_read(&mut buf[..available_len])
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..9d24b57 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -2,14 +2,13 @@ use std::fmt::Debug;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
 use rangemap::RangeSet;
-use tokio::sync::mpsc::error::TrySendError;
-use tokio::sync::{Notify, mpsc};
-use tracing::{debug, error};
+use tokio::sync::Notify;
+use tracing::debug;
 
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
@@ -18,7 +17,7 @@ pub(crate) struct SourceHandle {
     pub(super) requested_position: RequestedPosition,
     pub(super) position_reached: PositionReached,
     pub(super) content_length: Option<u64>,
-    pub(super) seek_tx: mpsc::Sender<u64>,
+    pub(super) position_request: PositionRequest,
     pub(super) notify_read: NotifyRead,
 }
 
@@ -27,19 +26,38 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    pub(crate) fn wait_for_position(&self, requested_position: u64) {
-        self.request_position(requested_position);
+    /// Returns the first part of the range that hasn't been downloaded yet.
+    pub(crate) fn next_gap(&self, range: &Range<u64>) -> Option<Range<u64>> {
+        self.downloaded.next_gap(range.clone())
+    }
+
+    /// Returns whether something behind the position has been downloaded.
+    pub(crate) fn is_downloaded_after(&self, position: u64) -> bool {
+        self.downloaded.end() > position
+    }
+
+    pub(crate) fn wait_for_range(&self, requested: Range<u64>) -> WaitResult {
+        self.requested_position.set(requested.clone());
+        // The download task looks at the requested range after adding to the downloaded ranges, so
+        // we need to check again in case the remaining data was added just before the request.
+        let Some(gap) = self.downloaded.next_gap(requested.clone()) else {
+            self.requested_position.clear();
+            return WaitResult::PositionReached;
+        };
         debug!(
-            requested_position = requested_position,
+            requested_position = requested.end,
             "waiting for requested position"
         );
+        self.position_request.send(Request::Read(gap.start));
         self.notify_read.notify_waiting();
-        self.position_reached.wait_for_position_reached();
+        self.position_reached.wait_for_position_reached()
     }
 
     pub(crate) fn seek(&self, seek_position: u64) {
-        self.request_position(seek_position);
-        self.request_seek(seek_position);
+        let end = seek_position.saturating_add(1);
+        let end = self.content_length.map_or(end, |length| length.min(end));
+        self.requested_position.set(seek_position..end);
+        self.position_request.send(Request::Seek(seek_position));
         debug!(
             requested_position = seek_position,
             "waiting for requested position"
@@ -58,52 +76,85 @@ impl SourceHandle {
     pub(crate) fn is_failed(&self) -> bool {
         self.download_status.is_failed()
     }
+}
+
+/// The range that the reader is waiting for.
+#[derive(Default, Debug, Clone)]
+pub(super) struct RequestedPosition(Arc<AssertUnwindSafe<Mutex<Option<Range<u64>>>>>);
+
+impl RequestedPosition {
+    pub(super) fn clear(&self) {
+        *self.0.lock() = None;
+    }
 
-    fn request_position(&self, position: u64) {
-        self.requested_position.set(position);
+    pub(super) fn get(&self) -> Option<Range<u64>> {
+        self.0.lock().clone()
     }
 
-    fn request_seek(&self, position: u64) {
-        self.seek_tx
-            .try_send(position)
-            .inspect_err(|e| {
-                if let TrySendError::Full(_) = e {
-                    error!("Sent multiple seek requests without waiting");
-                }
-            })
-            .ok();
+    fn set(&self, range: Range<u64>) {
+        *self.0.lock() = Some(range);
     }
 }
 
-#[derive(Debug, Clone)]
-pub(super) struct RequestedPosition(Arc<AtomicI64>);
+/// Position that the reader needs the download task to continue from.
+#[derive(Debug, Clone, Copy)]
+pub(super) enum Request {
+    /// The position is required by a read. No action is necessary if the download is about to get
+    /// there anyway.
+    Read(u64),
+    /// The position is the target of a seek.
+    Seek(u64),
+}
 
-impl Default for RequestedPosition {
-    fn default() -> Self {
-        Self(Arc::new(AtomicI64::new(-1)))
+impl Request {
+    pub(super) fn position(self) -> u64 {
+        match self {
+            Self::Read(position) | Self::Seek(position) => position,
+        }
     }
 }
 
-// relaxed ordering as we are not using the atomic to
-// lock something or to synchronize threads.
-impl RequestedPosition {
-    pub(super) fn clear(&self) {
-        self.0.store(-1, Ordering::Relaxed);
+/// Holds the latest [`Request`]. A newer request replaces an older one that wasn't handled in time.
+#[derive(Default, Debug, Clone)]
+pub(super) struct PositionRequest {
+    request: Arc<AssertUnwindSafe<Mutex<Option<Request>>>>,
+    notify: Arc<Notify>,
+}
+
+impl PositionRequest {
+    fn send(&self, request: Request) {
+        *self.request.lock() = Some(request);
+        self.notify.notify_one();
     }
 
-    pub(super) fn get(&self) -> Option<u64> {
-        let val = self.0.load(Ordering::Relaxed);
-        if val == -1 { None } else { Some(val as u64) }
+    fn take(&self) -> Option<Request> {
+        self.request.lock().take()
     }
 
-    fn set(&self, position: u64) {
-        self.0.store(position as i64, Ordering::Relaxed);
+    pub(super) async fn recv(&self) -> Request {
+        loop {
+            if let Some(request) = self.take() {
+                return request;
+            }
+            self.notify.notified().await;
+        }
     }
 }
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) enum WaitResult {
+    /// The reader was notified, usually because the requested range is available.
+    PositionReached,
+    /// There is no space left for the missing part of the requested range.
+    StorageFull,
+    /// The download has ended.
+    StreamDone,
+}
+
 #[derive(Default, Debug)]
 struct Waiter {
     position_reached: bool,
+    storage_full: bool,
     stream_done: bool,
 }
 
@@ -121,17 +172,25 @@ impl PositionReached {
         cvar.notify_all();
     }
 
+    pub(super) fn notify_storage_full(&self) {
+        let (mutex, cvar) = self.0.as_ref();
+        let mut waiter = mutex.lock();
+        waiter.position_reached = true;
+        waiter.storage_full = true;
+        cvar.notify_all();
+    }
+
     pub(super) fn notify_stream_done(&self) {
         let (mutex, cvar) = self.0.as_ref();
         mutex.lock().stream_done = true;
         cvar.notify_all();
     }
 
-    fn wait_for_position_reached(&self) {
+    fn wait_for_position_reached(&self) -> WaitResult {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
-            return;
+            return WaitResult::StreamDone;
         }
 
         let wait_start = Instant::now();
@@ -143,8 +202,14 @@ impl PositionReached {
             elapsed = format!("{:?}", wait_start.elapsed()),
             "position reached"
         );
-        if !waiter.stream_done {
-            waiter.position_reached = false;
+        if waiter.stream_done {
+            return WaitResult::StreamDone;
+        }
+        waiter.position_reached = false;
+        if std::mem::take(&mut waiter.storage_full) {
+            WaitResult::StorageFull
+        } else {
+            WaitResult::PositionReached
         }
     }
 }
@@ -165,8 +230,16 @@ impl Downloaded {
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
+        if range.is_empty() {
+            return None;
+        }
         self.0.read().gaps(&range).next()
     }
+
+    /// Returns the end of the furthest range.
+    pub(super) fn end(&self) -> u64 {
+        self.0.read().last().map_or(0, |range| range.end)
+    }
 }
 
 #[derive(Clone, Debug, Default)]
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 2d83583..9140dae 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -12,9 +12,9 @@ use std::time::{Duration, Instant};
 use bytes::Bytes;
 use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
-    DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SourceHandle,
+    DownloadStatus, Downloaded, NotifyRead, PositionReached, PositionRequest, Request,
+    RequestedPosition, SourceHandle,
 };
-use tokio::sync::mpsc;
 use tokio::task::yield_now;
 use tokio::time::timeout;
 use tokio_util::sync::CancellationToken;
@@ -113,6 +113,14 @@ enum DownloadAction {
     Complete,
 }
 
+enum WriteResult {
+    Finished {
+        position: u64,
+    },
+    /// The reader requested a different position while there was no space for the remaining bytes
+    Interrupted(Request),
+}
+
 pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     writer: W,
     downloaded: Downloaded,
@@ -121,8 +129,7 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
-    seek_tx: mpsc::Sender<u64>,
-    seek_rx: mpsc::Receiver<u64>,
+    position_request: PositionRequest,
     prefetch_bytes: u64,
     batch_write_size: usize,
     retry_timeout: Duration,
@@ -144,9 +151,6 @@ where
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
-        // buffer size of 1 is fine here because we wait for the position to update after we send
-        // each request
-        let (seek_tx, seek_rx) = mpsc::channel(1);
         Self {
             writer,
             downloaded: Downloaded::default(),
@@ -154,8 +158,7 @@ where
             requested_position: RequestedPosition::default(),
             position_reached: PositionReached::default(),
             notify_read: NotifyRead::default(),
-            seek_tx,
-            seek_rx,
+            position_request: PositionRequest::default(),
             content_length,
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
@@ -211,9 +214,8 @@ where
             // chunk. Forcing the client to abort and retry may help in these cases.
             let next_chunk = timeout(self.retry_timeout, stream.next());
             tokio::select! {
-                position = self.seek_rx.recv() => {
-                    // seek_tx can't be dropped here since we keep a reference in this struct
-                    self.handle_seek(stream, position.expect("seek_tx dropped")).await?;
+                request = self.position_request.recv() => {
+                    self.handle_request(stream, request).await?;
                 },
                 bytes = next_chunk => {
                     let Ok(bytes) = bytes else {
@@ -238,41 +240,61 @@ where
         Ok(StreamOutcome::Completed)
     }
 
-    async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
-        if self.should_seek(stream, position)? {
-            debug!("seek position not yet downloaded");
-            let current_stream_position = self.writer.stream_position()?;
-            let restart_prefetch = self.prefetch_complete;
-            if !self.prefetch_complete {
-                debug!("seeking during prefetch, ending prefetch early");
-                self.downloaded
-                    .add(self.prefetch_start_position..current_stream_position);
-                self.prefetch_complete = true;
+    async fn handle_request(&mut self, stream: &mut S, request: Request) -> io::Result<()> {
+        if self.requires_seek(stream, request)? {
+            self.handle_seek(stream, request.position()).await?;
+        }
+        self.notify_if_position_reached();
+        Ok(())
+    }
+
+    fn requires_seek(&mut self, stream: &S, request: Request) -> io::Result<bool> {
+        if let Request::Read(position) = request {
+            let writer_position = self.writer.stream_position()?;
+            // Data that was received during the prefetch phase isn't added to the downloaded ranges
+            // until the phase ends
+            let prefetching = !self.prefetch_complete
+                && (self.prefetch_start_position..writer_position).contains(&position);
+            if prefetching || position == writer_position {
+                return Ok(false);
             }
-            let (seek_start, seek_end) = if let Some(content_length) = self.content_length {
-                debug!(
-                    start = position,
-                    end = content_length,
-                    "checking for seek range",
-                );
-                if let Some(gap) = self.downloaded.next_gap(position..content_length) {
-                    (gap.start, Some(gap.end))
-                } else if position >= content_length {
-                    (position, Some(content_length))
-                } else {
-                    // Everything from here on is already available
-                    return Ok(());
-                }
+        }
+        Ok(self.should_seek(stream, request.position()))
+    }
+
+    async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
+        debug!("seek position not yet downloaded");
+        let current_stream_position = self.writer.stream_position()?;
+        let restart_prefetch = self.prefetch_complete;
+        if !self.prefetch_complete {
+            debug!("seeking during prefetch, ending prefetch early");
+            self.downloaded
+                .add(self.prefetch_start_position..current_stream_position);
+            self.prefetch_complete = true;
+        }
+        let (seek_start, seek_end) = if let Some(content_length) = self.content_length {
+            debug!(
+                start = position,
+                end = content_length,
+                "checking for seek range",
+            );
+            if let Some(gap) = self.downloaded.next_gap(position..content_length) {
+                (gap.start, Some(gap.end))
+            } else if position >= content_length {
+                (position, Some(content_length))
             } else {
-                (position, None)
-            };
-            debug!(seek_start, seek_end, "requesting seek range");
-            self.seek(stream, seek_start, seek_end).await?;
-            if restart_prefetch {
-                debug!("re-starting prefetch");
-                self.prefetch_start_position = seek_start;
-                self.prefetch_complete = false;
+                // Everything from here on is already available
+                return Ok(());
             }
+        } else {
+            (position, None)
+        };
+        debug!(seek_start, seek_end, "requesting seek range");
+        self.seek(stream, seek_start, seek_end).await?;
+        if restart_prefetch {
+            debug!("re-starting prefetch");
+            self.prefetch_start_position = seek_start;
+            self.prefetch_complete = false;
         }
         Ok(())
     }
@@ -311,6 +333,7 @@ where
             self.writer.flush()?;
             let position = self.writer.stream_position()?;
             self.downloaded.add(start_position..position);
+            self.notify_if_position_reached();
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -332,6 +355,7 @@ where
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
+            self.notify_if_position_reached();
         }
 
         self.report_prefetch_progress(
@@ -413,18 +437,24 @@ where
 
     async fn handle_download(
         &mut self,
-        stream: &S,
+        stream: &mut S,
         bytes: Bytes,
         download_start: Instant,
     ) -> io::Result<DownloadAction> {
         let bytes_len = bytes.len();
-        let new_position = self.write(bytes).await?;
-        self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        match self.write(stream, bytes).await? {
+            WriteResult::Finished { position } => {
+                self.report_downloading_progress(stream, position, download_start, bytes_len)?;
+            }
+            WriteResult::Interrupted(request) => {
+                self.handle_request(stream, request).await?;
+            }
+        }
 
         Ok(DownloadAction::Continue)
     }
 
-    async fn write(&mut self, bytes: Bytes) -> io::Result<u64> {
+    async fn write(&mut self, stream: &S, bytes: Bytes) -> io::Result<WriteResult> {
         let mut written = 0;
         let position = self.writer.stream_position()?;
         let mut new_position = position;
@@ -444,24 +474,23 @@ where
                 self.downloaded.add(position..new_position);
             }
 
-            if let Some(requested) = self.requested_position.get() {
-                debug!(
-                    requested_position = requested,
-                    current_position = new_position,
-                    "received requested position"
-                );
-
-                if new_position >= requested {
-                    debug!("notifying position reached");
-                    self.requested_position.clear();
-                    self.position_reached.notify_position_reached();
-                }
-            }
+            self.notify_if_position_reached();
             if new_written == 0 {
+                // If the reader is still waiting, it needs to make space before we can continue
+                self.notify_storage_full();
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
-                self.notify_read.wait_for_read().await;
-                debug!("read finished");
+                tokio::select! {
+                    biased;
+                    request = self.position_request.recv() => {
+                        if self.requires_seek(stream, request)? {
+                            return Ok(WriteResult::Interrupted(request));
+                        }
+                    }
+                    () = self.notify_read.wait_for_read() => {
+                        debug!("read finished");
+                    }
+                }
             }
 
             trace!(
@@ -471,19 +500,40 @@ where
                 "received response chunk"
             );
         }
-        Ok(new_position)
+        Ok(WriteResult::Finished {
+            position: new_position,
+        })
+    }
+
+    fn notify_if_position_reached(&self) {
+        if let Some(requested) = self.requested_position.get() {
+            debug!(
+                requested_position = requested.end,
+                "received requested position"
+            );
+
+            if self.downloaded.next_gap(requested).is_none() {
+                debug!("notifying position reached");
+                self.requested_position.clear();
+                self.position_reached.notify_position_reached();
+            }
+        }
+    }
+
+    fn notify_storage_full(&self) {
+        if self.requested_position.get().is_some() {
+            debug!("notifying storage full");
+            self.requested_position.clear();
+            self.position_reached.notify_storage_full();
+        }
     }
 
-    fn should_seek(&mut self, stream: &S, position: u64) -> io::Result<bool> {
+    fn should_seek(&mut self, stream: &S, position: u64) -> bool {
         if !stream.supports_seek() {
             warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
-            return Ok(false);
+            return false;
         }
-        Ok(if let Some(range) = self.downloaded.get(position) {
-            !range.contains(&self.writer.stream_position()?)
-        } else {
-            true
-        })
+        self.downloaded.get(position).is_none()
     }
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
@@ -568,7 +618,7 @@ where
             requested_position: self.requested_position.clone(),
             notify_read: self.notify_read.clone(),
             position_reached: self.position_reached.clone(),
-            seek_tx: self.seek_tx.clone(),
+            position_request: self.position_request.clone(),
             content_length: self.content_length,
         }
     }
-- 
2.43.0


From dffbfb983daf3f1f3bd86a8baeaac39de0f0f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 13/33] fix: keep the bounded storage window consistent across
 seeks

---
 crates/stream-download/src/storage/bounded.rs | 54 +++++++++++--------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index fe11d28..00dd83f 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -26,7 +26,7 @@ use std::sync::Arc;
 
 use educe::Educe;
 use parking_lot::Mutex;
-use tracing::{debug, instrument, trace, warn};
+use tracing::{instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
 use crate::{WrapIoResult, add_seek_offset};
@@ -90,10 +90,10 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
-            read: 0,
-            written: 0,
             read_position: 0,
             write_position: 0,
+            window_start: 0,
+            reader_lagging: false,
             size: buffer_size,
         })));
         let reader = BoundedStorageReader {
@@ -110,10 +110,12 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
-    read: usize,
-    written: usize,
     read_position: usize,
     write_position: usize,
+    /// Start of the contiguous data that ends at the write position
+    window_start: usize,
+    /// Whether the reader has yet to follow the writer to a different part of the stream
+    reader_lagging: bool,
     size: usize,
 }
 
@@ -125,6 +127,21 @@ impl SharedInfo {
     fn mapped_write_position(&self, val: usize) -> usize {
         (val + (self.write_position % self.size)) % self.size
     }
+
+    /// First position that hasn't been overwritten yet
+    fn oldest_position(&self) -> usize {
+        self.window_start
+            .max(self.write_position.saturating_sub(self.size))
+    }
+
+    /// Amount of data behind the write position that the reader still needs
+    fn space_taken(&self) -> usize {
+        if self.reader_lagging {
+            self.write_position - self.window_start
+        } else {
+            self.write_position.saturating_sub(self.read_position)
+        }
+    }
 }
 
 /// Reader created by a [`BoundedStorageProvider`]. Reads from a fixed-size circular buffer.
@@ -162,7 +179,7 @@ where
             .write_position
             .saturating_sub(shared_info.read_position);
 
-        if available_len > shared_info.size {
+        if shared_info.read_position < shared_info.oldest_position() {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
@@ -172,11 +189,6 @@ where
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
-            return Ok(0);
-        }
-
         let size = shared_info.size.min(shared_info.write_position);
         let available_buf_size = available_len.min(buf.len());
 
@@ -195,7 +207,6 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
             "bounded read"
         );
 
@@ -224,7 +235,7 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
+        shared_info.reader_lagging = false;
 
         Ok(buf_len)
     }
@@ -239,11 +250,8 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
         shared_info.read_position = new_position;
+        shared_info.reader_lagging = false;
         Ok(new_position as u64)
     }
 }
@@ -280,9 +288,7 @@ where
     #[instrument(skip(buf))]
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         let mut shared_info = self.shared_info.lock();
-        let space_taken = shared_info
-            .write_position
-            .saturating_sub(shared_info.read_position);
+        let space_taken = shared_info.space_taken();
         let available_size = shared_info.size.saturating_sub(space_taken).min(buf.len());
         trace!(available_size, buf_len = buf.len(), "calculated buf size");
         // If we don't have enough space to write the entire buffer, write as much as we can
@@ -298,7 +304,6 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
             "bounded write"
         );
 
@@ -324,7 +329,6 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -345,7 +349,11 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
+        let retained = shared_info.oldest_position()..=shared_info.write_position;
+        if !retained.contains(&new_position) {
+            shared_info.window_start = new_position;
+            shared_info.reader_lagging = true;
+        }
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From da67c35c9ef506dba4c185be48d544c36aa154be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 14/33] fix: keep bounded storages and reads at the end of the
 stream consistent

- adaptive storages of unknown length are limited to their buffer size
- positions outside of the retained window are no longer considered downloaded
- a pending seek is never mistaken for a full storage
- reads at the end wait for the outcome of the download
- reading a skipped part of a stream of unknown length isn't an end of file
---
 crates/stream-download/src/lib.rs             |  17 ++-
 crates/stream-download/src/source/handle.rs   | 122 ++++++++++++------
 crates/stream-download/src/source/mod.rs      |  41 +++---
 .../stream-download/src/storage/adaptive.rs   |   7 +
 crates/stream-download/src/storage/bounded.rs |  15 +--
 crates/stream-download/src/storage/mod.rs     |   6 +
 6 files changed, 134 insertions(+), 74 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 2c224c2..c99e773 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -397,13 +397,19 @@ impl<P: StorageProvider> StreamDownload<P> {
             .await
             .map_err(StreamInitializationError::StreamCreationFailure)?;
         let content_length = stream.content_length();
-        let storage_capacity = storage_provider.max_capacity();
+        let storage_capacity = storage_provider.max_capacity_for(content_length);
         let (reader, writer) = storage_provider
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
+        let mut source = Source::new(
+            writer,
+            content_length,
+            storage_capacity,
+            settings,
+            cancellation_token.clone(),
+        );
         let handle = source.source_handle();
 
         let finished = CancellationToken::new();
@@ -577,6 +583,11 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         );
 
         let mut requested = stream_position..requested_position.max(stream_position);
+        if requested.is_empty() && !buf.is_empty() {
+            // The stream can still fail once everything has been read
+            self.handle.wait_for_stream_done();
+            self.check_for_failure()?;
+        }
         // The stream may be downloaded out of order if there were any seeks, so we have to make
         // sure there are no gaps in the requested range.
         while let Some(gap) = self.handle.next_gap(&requested) {
@@ -596,7 +607,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             if available_end > stream_position {
                 requested.end = available_end;
             } else if result == WaitResult::StreamDone {
-                if self.handle.is_downloaded_after(stream_position) {
+                if self.handle.is_before_end(stream_position) {
                     return Err(io::Error::new(
                         io::ErrorKind::UnexpectedEof,
                         format!(
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 9d24b57..2dbd014 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -2,7 +2,7 @@ use std::fmt::Debug;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
@@ -14,7 +14,6 @@ use tracing::debug;
 pub(crate) struct SourceHandle {
     pub(super) downloaded: Downloaded,
     pub(super) download_status: DownloadStatus,
-    pub(super) requested_position: RequestedPosition,
     pub(super) position_reached: PositionReached,
     pub(super) content_length: Option<u64>,
     pub(super) position_request: PositionRequest,
@@ -31,24 +30,27 @@ impl SourceHandle {
         self.downloaded.next_gap(range.clone())
     }
 
-    /// Returns whether something behind the position has been downloaded.
-    pub(crate) fn is_downloaded_after(&self, position: u64) -> bool {
-        self.downloaded.end() > position
+    /// Returns whether the position is in front of the end of the stream.
+    pub(crate) fn is_before_end(&self, position: u64) -> bool {
+        position < self.downloaded.end().max(self.download_status.end())
     }
 
     pub(crate) fn wait_for_range(&self, requested: Range<u64>) -> WaitResult {
-        self.requested_position.set(requested.clone());
-        // The download task looks at the requested range after adding to the downloaded ranges, so
-        // we need to check again in case the remaining data was added just before the request.
         let Some(gap) = self.downloaded.next_gap(requested.clone()) else {
-            self.requested_position.clear();
             return WaitResult::PositionReached;
         };
         debug!(
             requested_position = requested.end,
             "waiting for requested position"
         );
-        self.position_request.send(Request::Read(gap.start));
+        self.position_request
+            .send(requested.clone(), Request::Read(gap.start));
+        // The download task looks at the requested range after adding to the downloaded ranges, so
+        // we need to check again in case the remaining data was added just before the request.
+        if self.downloaded.next_gap(requested).is_none() {
+            self.position_request.clear();
+            return WaitResult::PositionReached;
+        }
         self.notify_read.notify_waiting();
         self.position_reached.wait_for_position_reached()
     }
@@ -56,13 +58,21 @@ impl SourceHandle {
     pub(crate) fn seek(&self, seek_position: u64) {
         let end = seek_position.saturating_add(1);
         let end = self.content_length.map_or(end, |length| length.min(end));
-        self.requested_position.set(seek_position..end);
-        self.position_request.send(Request::Seek(seek_position));
+        let requested = seek_position..end;
+        self.position_request
+            .send(requested.clone(), Request::Seek(seek_position));
         debug!(
             requested_position = seek_position,
             "waiting for requested position"
         );
-        self.position_reached.wait_for_position_reached();
+        while self.position_reached.wait_for_position_reached() == WaitResult::PositionReached
+            && self.downloaded.next_gap(requested.clone()).is_some()
+        {}
+    }
+
+    pub(crate) fn wait_for_stream_done(&self) {
+        debug!("waiting for the end of the stream");
+        while self.position_reached.wait_for_position_reached() != WaitResult::StreamDone {}
     }
 
     pub(crate) fn notify_read(&self) {
@@ -78,24 +88,6 @@ impl SourceHandle {
     }
 }
 
-/// The range that the reader is waiting for.
-#[derive(Default, Debug, Clone)]
-pub(super) struct RequestedPosition(Arc<AssertUnwindSafe<Mutex<Option<Range<u64>>>>>);
-
-impl RequestedPosition {
-    pub(super) fn clear(&self) {
-        *self.0.lock() = None;
-    }
-
-    pub(super) fn get(&self) -> Option<Range<u64>> {
-        self.0.lock().clone()
-    }
-
-    fn set(&self, range: Range<u64>) {
-        *self.0.lock() = Some(range);
-    }
-}
-
 /// Position that the reader needs the download task to continue from.
 #[derive(Debug, Clone, Copy)]
 pub(super) enum Request {
@@ -114,21 +106,57 @@ impl Request {
     }
 }
 
-/// Holds the latest [`Request`]. A newer request replaces an older one that wasn't handled in time.
+#[derive(Default, Debug)]
+struct Requested {
+    /// The range that the reader is waiting for.
+    range: Option<Range<u64>>,
+    /// A request that hasn't been handled yet.
+    request: Option<Request>,
+}
+
+/// Holds the range that the reader is waiting for along with the latest [`Request`]. A newer
+/// request replaces an older one that wasn't handled in time.
 #[derive(Default, Debug, Clone)]
 pub(super) struct PositionRequest {
-    request: Arc<AssertUnwindSafe<Mutex<Option<Request>>>>,
+    requested: Arc<AssertUnwindSafe<Mutex<Requested>>>,
     notify: Arc<Notify>,
 }
 
 impl PositionRequest {
-    fn send(&self, request: Request) {
-        *self.request.lock() = Some(request);
+    fn send(&self, range: Range<u64>, request: Request) {
+        *self.requested.lock() = Requested {
+            range: Some(range),
+            request: Some(request),
+        };
         self.notify.notify_one();
     }
 
+    fn clear(&self) {
+        *self.requested.lock() = Requested::default();
+    }
+
     fn take(&self) -> Option<Request> {
-        self.request.lock().take()
+        self.requested.lock().request.take()
+    }
+
+    /// Ends the wait for the requested range if it has been downloaded.
+    pub(super) fn finish_if_downloaded(&self, downloaded: &Downloaded) -> bool {
+        let mut requested = self.requested.lock();
+        let finished = requested
+            .range
+            .as_ref()
+            .is_some_and(|range| downloaded.next_gap(range.clone()).is_none());
+        if finished {
+            requested.range = None;
+        }
+        finished
+    }
+
+    /// Ends the wait for the requested range unless there's still a request that may make the range
+    /// available.
+    pub(super) fn finish_if_handled(&self) -> bool {
+        let mut requested = self.requested.lock();
+        requested.request.is_none() && requested.range.take().is_some()
     }
 
     pub(super) async fn recv(&self) -> Request {
@@ -236,6 +264,10 @@ impl Downloaded {
         self.0.read().gaps(&range).next()
     }
 
+    pub(super) fn clear(&self) {
+        self.0.write().clear();
+    }
+
     /// Returns the end of the furthest range.
     pub(super) fn end(&self) -> u64 {
         self.0.read().last().map_or(0, |range| range.end)
@@ -271,14 +303,26 @@ impl NotifyRead {
 }
 
 #[derive(Default, Clone, Debug)]
-pub(super) struct DownloadStatus(Arc<AtomicBool>);
+pub(super) struct DownloadStatus {
+    failed: Arc<AtomicBool>,
+    end: Arc<AtomicU64>,
+}
 
 impl DownloadStatus {
     pub(super) fn set_failed(&self) {
-        self.0.store(true, Ordering::SeqCst);
+        self.failed.store(true, Ordering::SeqCst);
     }
 
     fn is_failed(&self) -> bool {
-        self.0.load(Ordering::SeqCst)
+        self.failed.load(Ordering::SeqCst)
+    }
+
+    /// Sets the position where the stream ended.
+    pub(super) fn set_end(&self, position: u64) {
+        self.end.store(position, Ordering::SeqCst);
+    }
+
+    fn end(&self) -> u64 {
+        self.end.load(Ordering::SeqCst)
     }
 }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 9140dae..0c50214 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -12,8 +12,7 @@ use std::time::{Duration, Instant};
 use bytes::Bytes;
 use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
-    DownloadStatus, Downloaded, NotifyRead, PositionReached, PositionRequest, Request,
-    RequestedPosition, SourceHandle,
+    DownloadStatus, Downloaded, NotifyRead, PositionReached, PositionRequest, Request, SourceHandle,
 };
 use tokio::task::yield_now;
 use tokio::time::timeout;
@@ -125,10 +124,11 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     writer: W,
     downloaded: Downloaded,
     download_status: DownloadStatus,
-    requested_position: RequestedPosition,
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
+    /// Whether the storage is too small to hold the entire content
+    bounded_storage: bool,
     position_request: PositionRequest,
     prefetch_bytes: u64,
     batch_write_size: usize,
@@ -148,6 +148,7 @@ where
     pub(crate) fn new(
         writer: W,
         content_length: Option<u64>,
+        storage_capacity: Option<usize>,
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
@@ -155,11 +156,13 @@ where
             writer,
             downloaded: Downloaded::default(),
             download_status: DownloadStatus::default(),
-            requested_position: RequestedPosition::default(),
             position_reached: PositionReached::default(),
             notify_read: NotifyRead::default(),
             position_request: PositionRequest::default(),
             content_length,
+            bounded_storage: storage_capacity.is_some_and(|capacity| {
+                content_length.is_none_or(|length| length > capacity as u64)
+            }),
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
             batch_write_size: settings.batch_write_size,
@@ -278,7 +281,9 @@ where
                 end = content_length,
                 "checking for seek range",
             );
-            if let Some(gap) = self.downloaded.next_gap(position..content_length) {
+            if self.bounded_storage {
+                (position, Some(content_length))
+            } else if let Some(gap) = self.downloaded.next_gap(position..content_length) {
                 (gap.start, Some(gap.end))
             } else if position >= content_length {
                 (position, Some(content_length))
@@ -373,7 +378,9 @@ where
     }
 
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
+        // A bounded storage only retains the data around the current position
         if stream.supports_seek()
+            && !self.bounded_storage
             && let Some(content_length) = self.content_length
         {
             let gap = self.downloaded.next_gap(0..content_length);
@@ -387,6 +394,8 @@ where
             }
         }
         self.writer.flush()?;
+        let position = self.writer.stream_position()?;
+        self.download_status.set_end(position);
         Ok(DownloadAction::Complete)
     }
 
@@ -506,24 +515,15 @@ where
     }
 
     fn notify_if_position_reached(&self) {
-        if let Some(requested) = self.requested_position.get() {
-            debug!(
-                requested_position = requested.end,
-                "received requested position"
-            );
-
-            if self.downloaded.next_gap(requested).is_none() {
-                debug!("notifying position reached");
-                self.requested_position.clear();
-                self.position_reached.notify_position_reached();
-            }
+        if self.position_request.finish_if_downloaded(&self.downloaded) {
+            debug!("notifying position reached");
+            self.position_reached.notify_position_reached();
         }
     }
 
     fn notify_storage_full(&self) {
-        if self.requested_position.get().is_some() {
+        if self.position_request.finish_if_handled() {
             debug!("notifying storage full");
-            self.requested_position.clear();
             self.position_reached.notify_storage_full();
         }
     }
@@ -538,6 +538,10 @@ where
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
+        if self.bounded_storage && start != self.writer.stream_position()? {
+            // Bounded storages can't keep separate ranges
+            self.downloaded.clear();
+        }
         self.writer.seek(SeekFrom::Start(start))?;
         Ok(())
     }
@@ -615,7 +619,6 @@ where
         SourceHandle {
             downloaded: self.downloaded.clone(),
             download_status: self.download_status.clone(),
-            requested_position: self.requested_position.clone(),
             notify_read: self.notify_read.clone(),
             position_reached: self.position_reached.clone(),
             position_request: self.position_request.clone(),
diff --git a/crates/stream-download/src/storage/adaptive.rs b/crates/stream-download/src/storage/adaptive.rs
index 2da8418..e3a7391 100644
--- a/crates/stream-download/src/storage/adaptive.rs
+++ b/crates/stream-download/src/storage/adaptive.rs
@@ -104,6 +104,13 @@ where
     type Reader = AdaptiveStorageReader<F::Reader, V::Reader>;
     type Writer = AdaptiveStorageWriter<F::Writer, V::Writer>;
 
+    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
+        match content_length {
+            None => Some(self.buffer_size.get()),
+            Some(_) => None,
+        }
+    }
+
     fn into_reader_writer(
         self,
         content_length: Option<u64>,
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 00dd83f..d5b26a4 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -202,13 +202,7 @@ where
         let start = shared_info.mapped_read_position(0);
         // is_empty check above prevents subtraction with overflow here
         let end = shared_info.mapped_read_position(available_buf_size - 1) + 1;
-        trace!(
-            start,
-            end,
-            size,
-            buf_len = buf.len(),
-            "bounded read"
-        );
+        trace!(start, end, size, buf_len = buf.len(), "bounded read");
 
         self.inner
             .seek(SeekFrom::Start(start as u64))
@@ -300,12 +294,7 @@ where
         let start = shared_info.mapped_write_position(0);
         // is_empty check above prevents subtraction with overflow here
         let end = shared_info.mapped_write_position(buf.len() - 1) + 1;
-        trace!(
-            start,
-            end,
-            buf_len = buf.len(),
-            "bounded write"
-        );
+        trace!(start, end, buf_len = buf.len(), "bounded write");
 
         self.inner
             .seek(SeekFrom::Start(start as u64))
diff --git a/crates/stream-download/src/storage/mod.rs b/crates/stream-download/src/storage/mod.rs
index ea41bf5..a45a702 100644
--- a/crates/stream-download/src/storage/mod.rs
+++ b/crates/stream-download/src/storage/mod.rs
@@ -28,6 +28,12 @@ pub trait StorageProvider: Send {
     fn max_capacity(&self) -> Option<usize> {
         None
     }
+
+    /// Returns the maximum number of bytes the storage created for a source with the given content
+    /// length can hold at a time.
+    fn max_capacity_for(&self, #[expect(unused)] content_length: Option<u64>) -> Option<usize> {
+        self.max_capacity()
+    }
 }
 
 /// Trait used to read from a storage layer
-- 
2.43.0


From 7aec2ed178c9b81a7ad5eb8a687335da615af288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 15/33] fix: validate and align HTTP responses when
 reconnecting without range support

---
 crates/stream-download/src/http/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..6dba8c0 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -37,7 +37,7 @@ use std::time::Instant;
 
 use bytes::Bytes;
 use educe::Educe;
-use futures_util::{Future, Stream};
+use futures_util::{Future, Stream, TryStreamExt};
 use mediatype::MediaTypeBuf;
 #[cfg(feature = "reqwest")]
 pub use reqwest;
@@ -350,7 +350,27 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
-            self.stream = Box::new(response.stream());
+            let response = match response.into_result() {
+                Ok(response) => Ok(response),
+                Err(e) => {
+                    let error = e.decode_error().await;
+                    Err(io::Error::other(error))
+                        .wrap_err(&format!("error getting HTTP response from {}", self.url))
+                }
+            }?;
+            let stream = response.stream();
+            self.stream = if self.content_length.is_some() {
+                // The response starts from the beginning, so we need to ignore the part that we
+                // already received.
+                let mut remaining = current_position;
+                Box::new(stream.map_ok(move |mut bytes| {
+                    let skipped = remaining.min(bytes.len() as u64);
+                    remaining -= skipped;
+                    bytes.split_off(skipped as usize)
+                }))
+            } else {
+                Box::new(stream)
+            };
             Ok(())
         }
     }
-- 
2.43.0


From 37a2bb09e927c291cfc5fff1fd2dc12ed9710fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 16/33] fix: don't leave the upstream commands of a process
 pipeline behind

---
 .../src/process/command_builder.rs            | 34 ++------
 crates/stream-download/src/process/mod.rs     | 81 ++++++++++++-------
 2 files changed, 59 insertions(+), 56 deletions(-)

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index 2102b11..38e2ed8 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -1,7 +1,6 @@
 use std::io;
-use std::process::Stdio;
 
-use super::{Command, SpawnCommand, SpawnedCommand, WrapIoResult, stdio_to_tmp_file};
+use super::{Command, SpawnCommand, SpawnedCommand};
 
 /// A builder object that can pipe multiple commands together and automatically configure the child
 /// process' handles correctly.
@@ -37,34 +36,15 @@ impl SpawnCommand for CommandBuilder {
     fn spawn(mut self) -> io::Result<SpawnedCommand> {
         let last = self.commands.pop().expect("prevented by constructor");
         let mut prev_stdout = None;
+        let mut upstream_handles = Vec::new();
         let mut stderr_files = Vec::new();
 
         for command in self.commands {
-            let mut std_command = std::process::Command::new(command.program);
-            std_command
-                .args(command.args.clone())
-                .stdout(Stdio::piped());
-            if let Some(handle) = command.stderr_handle {
-                std_command.stderr(handle);
-            } else {
-                let (stdio, stderr_file) = stdio_to_tmp_file()?;
-                std_command.stderr(stdio);
-                stderr_files.push(stderr_file);
-            }
-
-            #[cfg(target_os = "windows")]
-            {
-                // CREATE_NO_WINDOW
-                use std::os::windows::process::CommandExt;
-                std_command.creation_flags(0x08000000);
-            }
-
-            if let Some(prev_stdout) = prev_stdout.take() {
-                std_command.stdin(prev_stdout);
-            }
-            let mut command_out = std_command.spawn().wrap_err("error spawning process")?;
-            prev_stdout = command_out.stdout.take();
+            let mut child_handle =
+                command.spawn_child(prev_stdout.take(), &mut stderr_files, false)?;
+            prev_stdout = child_handle.stdout.take();
+            upstream_handles.push(child_handle);
         }
-        SpawnedCommand::new(last, prev_stdout, stderr_files)
+        SpawnedCommand::new(last, prev_stdout, upstream_handles, stderr_files)
     }
 }
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 254b61e..85770ca 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -19,7 +19,7 @@ use std::ffi::OsString;
 use std::io::{self, Read, Write};
 use std::mem;
 use std::pin::Pin;
-use std::process::{ChildStdout, Stdio};
+use std::process::Stdio;
 use std::task::Poll;
 
 use bytes::Bytes;
@@ -27,6 +27,7 @@ pub use command_builder::*;
 pub use ffmpeg::*;
 use futures_util::Stream;
 use tempfile::NamedTempFile;
+use tokio::process::{Child, ChildStdout};
 use tracing::{debug, error, warn};
 pub use yt_dlp::*;
 
@@ -112,29 +113,17 @@ impl Command {
     }
 }
 
-impl SpawnCommand for Command {
-    fn spawn(self) -> io::Result<SpawnedCommand> {
-        SpawnedCommand::new(self, None, Vec::new())
-    }
-}
-
-/// A representation of a [`tokio::process::Command`] that's been spawned.
-#[derive(Debug)]
-pub struct SpawnedCommand {
-    child_handle: tokio::process::Child,
-    stderr_files: Vec<NamedTempFile>,
-}
-
-impl SpawnedCommand {
-    fn new(
-        command: Command,
+impl Command {
+    fn spawn_child(
+        self,
         prev_out: Option<ChildStdout>,
-        mut stderr_files: Vec<NamedTempFile>,
-    ) -> Result<Self, io::Error> {
-        let mut tokio_command = tokio::process::Command::new(command.program);
+        stderr_files: &mut Vec<NamedTempFile>,
+        kill_on_drop: bool,
+    ) -> io::Result<Child> {
+        let mut tokio_command = tokio::process::Command::new(self.program);
 
-        tokio_command.args(command.args).stdout(Stdio::piped());
-        if let Some(handle) = command.stderr_handle {
+        tokio_command.args(self.args).stdout(Stdio::piped());
+        if let Some(handle) = self.stderr_handle {
             tokio_command.stderr(handle);
         } else {
             let (stdio, stderr_file) = stdio_to_tmp_file()?;
@@ -143,18 +132,47 @@ impl SpawnedCommand {
         }
 
         if let Some(prev_out) = prev_out {
-            tokio_command.stdin(prev_out);
+            let stdin: Stdio = prev_out.try_into().wrap_err("error connecting processes")?;
+            tokio_command.stdin(stdin);
         }
 
-        tokio_command.kill_on_drop(true);
+        tokio_command.kill_on_drop(kill_on_drop);
         #[cfg(target_os = "windows")]
         {
             // CREATE_NO_WINDOW
             tokio_command.creation_flags(0x08000000);
         }
 
+        tokio_command.spawn().wrap_err("error spawning process")
+    }
+}
+
+impl SpawnCommand for Command {
+    fn spawn(self) -> io::Result<SpawnedCommand> {
+        SpawnedCommand::new(self, None, Vec::new(), Vec::new())
+    }
+}
+
+/// A representation of a [`tokio::process::Command`] that's been spawned.
+#[derive(Debug)]
+pub struct SpawnedCommand {
+    child_handle: Child,
+    // Commands that (directly or indirectly) pipe into the last one. Keeping track of these allows
+    // us to stop them early and prevents them from staying around as zombie processes.
+    upstream_handles: Vec<Child>,
+    stderr_files: Vec<NamedTempFile>,
+}
+
+impl SpawnedCommand {
+    fn new(
+        command: Command,
+        prev_out: Option<ChildStdout>,
+        upstream_handles: Vec<Child>,
+        mut stderr_files: Vec<NamedTempFile>,
+    ) -> Result<Self, io::Error> {
         Ok(Self {
-            child_handle: tokio_command.spawn().wrap_err("error spawning process")?,
+            child_handle: command.spawn_child(prev_out, &mut stderr_files, true)?,
+            upstream_handles,
             stderr_files,
         })
     }
@@ -207,8 +225,9 @@ impl ProcessStreamParams {
 /// [`tokio::process::Command`].
 #[derive(Debug)]
 pub struct ProcessStream {
-    stream: AsyncReadStream<tokio::process::ChildStdout>,
-    child_handle: tokio::process::Child,
+    stream: AsyncReadStream<ChildStdout>,
+    child_handle: Child,
+    upstream_handles: Vec<Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
@@ -258,6 +277,7 @@ impl SourceStream for ProcessStream {
                 content_length,
             ),
             child_handle: command.child_handle,
+            upstream_handles: command.upstream_handles,
             stderr_files: command.stderr_files,
         })
     }
@@ -291,9 +311,12 @@ impl SourceStream for ProcessStream {
             }
             command_failed
         } else {
-            debug!("killing child process");
+            debug!("killing child processes");
             self.child_handle.kill().await?;
-            debug!("child process killed");
+            for upstream_handle in &mut self.upstream_handles {
+                upstream_handle.kill().await?;
+            }
+            debug!("child processes killed");
             // Don't need to check process for errors if the user explicitly cancelled the stream
             outcome == StreamOutcome::Completed
         };
-- 
2.43.0


From 0af303db3854d4c9b702c2932834e7feb667e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 17/33] fix: don't let read requests delay reconnects and
 report interrupted chunks

---
 crates/stream-download/src/source/mod.rs | 68 ++++++++++++++++--------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 0c50214..cda71b1 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -117,7 +117,11 @@ enum WriteResult {
         position: u64,
     },
     /// The reader requested a different position while there was no space for the remaining bytes
-    Interrupted(Request),
+    Interrupted {
+        request: Request,
+        position: u64,
+        written: usize,
+    },
 }
 
 pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
@@ -211,44 +215,51 @@ where
     async fn download_inner(&mut self, stream: &mut S) -> io::Result<StreamOutcome> {
         debug!("starting file download");
         let download_start = std::time::Instant::now();
+        let mut last_activity = tokio::time::Instant::now();
 
         loop {
             // Some streams may get stuck if the connection has a hiccup while waiting for the next
             // chunk. Forcing the client to abort and retry may help in these cases.
-            let next_chunk = timeout(self.retry_timeout, stream.next());
+            let remaining_time = self.retry_timeout.saturating_sub(last_activity.elapsed());
+            let next_chunk = timeout(remaining_time, stream.next());
             tokio::select! {
                 request = self.position_request.recv() => {
-                    self.handle_request(stream, request).await?;
-                },
-                bytes = next_chunk => {
-                    let Ok(bytes) = bytes else {
-                        self.handle_reconnect(stream).await?;
+                    if !self.handle_request(stream, request).await? {
+                        // The source still hasn't produced anything
                         continue;
-                    };
-                    if self
-                        .handle_bytes(stream, bytes, download_start)
-                        .await?
-                        == DownloadAction::Complete
-                    {
-                        debug!(
-                            download_duration = format!("{:?}", download_start.elapsed()),
-                            "stream finished downloading"
-                        );
-                        break;
                     }
+                },
+                bytes = next_chunk => match bytes {
+                    Ok(bytes) => {
+                        if self
+                            .handle_bytes(stream, bytes, download_start)
+                            .await?
+                            == DownloadAction::Complete
+                        {
+                            debug!(
+                                download_duration = format!("{:?}", download_start.elapsed()),
+                                "stream finished downloading"
+                            );
+                            break;
+                        }
+                    }
+                    Err(_elapsed) => self.handle_reconnect(stream).await?,
                 }
             };
+            last_activity = tokio::time::Instant::now();
         }
         self.report_download_complete(stream, download_start)?;
         Ok(StreamOutcome::Completed)
     }
 
-    async fn handle_request(&mut self, stream: &mut S, request: Request) -> io::Result<()> {
-        if self.requires_seek(stream, request)? {
+    /// Returns whether the request required seeking to a different position.
+    async fn handle_request(&mut self, stream: &mut S, request: Request) -> io::Result<bool> {
+        let requires_seek = self.requires_seek(stream, request)?;
+        if requires_seek {
             self.handle_seek(stream, request.position()).await?;
         }
         self.notify_if_position_reached();
-        Ok(())
+        Ok(requires_seek)
     }
 
     fn requires_seek(&mut self, stream: &S, request: Request) -> io::Result<bool> {
@@ -455,7 +466,14 @@ where
             WriteResult::Finished { position } => {
                 self.report_downloading_progress(stream, position, download_start, bytes_len)?;
             }
-            WriteResult::Interrupted(request) => {
+            WriteResult::Interrupted {
+                request,
+                position,
+                written,
+            } => {
+                if written > 0 {
+                    self.report_downloading_progress(stream, position, download_start, written)?;
+                }
                 self.handle_request(stream, request).await?;
             }
         }
@@ -493,7 +511,11 @@ where
                     biased;
                     request = self.position_request.recv() => {
                         if self.requires_seek(stream, request)? {
-                            return Ok(WriteResult::Interrupted(request));
+                            return Ok(WriteResult::Interrupted {
+                                request,
+                                position: new_position,
+                                written,
+                            });
                         }
                     }
                     () = self.notify_read.wait_for_read() => {
-- 
2.43.0


From 9b217acaef0dc795ff88b67e46c4378e0530c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 18/33] fix: serve skipped ranges from bounded storages that
 hold the entire content

---
 crates/stream-download/src/storage/bounded.rs | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index d5b26a4..8a28a03 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -94,6 +94,8 @@ where
             write_position: 0,
             window_start: 0,
             reader_lagging: false,
+            written_end: 0,
+            holds_content: content_length.is_some_and(|length| length <= buffer_size as u64),
             size: buffer_size,
         })));
         let reader = BoundedStorageReader {
@@ -116,6 +118,10 @@ struct SharedInfo {
     window_start: usize,
     /// Whether the reader has yet to follow the writer to a different part of the stream
     reader_lagging: bool,
+    /// End of the furthest write
+    written_end: usize,
+    /// Whether the buffer is large enough for the entire stream
+    holds_content: bool,
     size: usize,
 }
 
@@ -128,12 +134,34 @@ impl SharedInfo {
         (val + (self.write_position % self.size)) % self.size
     }
 
+    /// Whether nothing has to be overwritten, even if the stream is written out of order
+    fn retains_everything(&self) -> bool {
+        self.holds_content && self.written_end <= self.size
+    }
+
     /// First position that hasn't been overwritten yet
     fn oldest_position(&self) -> usize {
+        if self.retains_everything() {
+            return 0;
+        }
+        self.window_start()
+    }
+
+    /// Start of the window in front of the write position
+    fn window_start(&self) -> usize {
         self.window_start
             .max(self.write_position.saturating_sub(self.size))
     }
 
+    /// End of the readable data
+    fn newest_position(&self) -> usize {
+        if self.retains_everything() {
+            self.written_end
+        } else {
+            self.write_position
+        }
+    }
+
     /// Amount of data behind the write position that the reader still needs
     fn space_taken(&self) -> usize {
         if self.reader_lagging {
@@ -176,7 +204,7 @@ where
         }
 
         let available_len = shared_info
-            .write_position
+            .newest_position()
             .saturating_sub(shared_info.read_position);
 
         if shared_info.read_position < shared_info.oldest_position() {
@@ -189,7 +217,7 @@ where
             ));
         }
 
-        let size = shared_info.size.min(shared_info.write_position);
+        let size = shared_info.size.min(shared_info.newest_position());
         let available_buf_size = available_len.min(buf.len());
 
         trace!(buf_len = buf.len(), "original buf len");
@@ -318,6 +346,7 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
+        shared_info.written_end = shared_info.written_end.max(shared_info.write_position);
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -338,7 +367,7 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        let retained = shared_info.oldest_position()..=shared_info.write_position;
+        let retained = shared_info.window_start()..=shared_info.write_position;
         if !retained.contains(&new_position) {
             shared_info.window_start = new_position;
             shared_info.reader_lagging = true;
-- 
2.43.0


From 2bcf09a4e63616e4c8344dff3a3478cf1ed0a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 19/33] fix: drop position requests that are already satisfied

---
 crates/stream-download/src/source/handle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 2dbd014..51bd672 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -147,7 +147,8 @@ impl PositionRequest {
             .as_ref()
             .is_some_and(|range| downloaded.next_gap(range.clone()).is_none());
         if finished {
-            requested.range = None;
+            // A request that hasn't been handled yet is obsolete
+            *requested = Requested::default();
         }
         finished
     }
-- 
2.43.0


From 144f217aaa12eaaa68a04f72090eb9572a179f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 20/33] fix: let the download continue when a seek makes space
 in the storage

---
 crates/stream-download/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index c99e773..07963d4 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -469,6 +469,16 @@ impl<P: StorageProvider> StreamDownload<P> {
         res
     }
 
+    fn seek_reader(&mut self, position: u64) -> io::Result<u64> {
+        let res = self
+            .output_reader
+            .seek(SeekFrom::Start(position))
+            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
+        // Moving the reader may have freed some space
+        self.handle.notify_read();
+        res
+    }
+
     fn normalize_requested_position(&self, requested_position: u64) -> u64 {
         if let Some(content_length) = self.content_length {
             // ensure we don't request a position beyond the end of the stream
@@ -648,19 +658,14 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 downloaded_range = format!("{closest_set:?}"),
                 "seek position already downloaded"
             );
-            return self
-                .output_reader
-                .seek(SeekFrom::Start(absolute_seek_position))
-                .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
+            return self.seek_reader(absolute_seek_position);
         }
 
         self.handle.seek(absolute_seek_position);
         self.check_for_failure()?;
         debug!("reached seek position");
 
-        self.output_reader
-            .seek(SeekFrom::Start(absolute_seek_position))
-            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))
+        self.seek_reader(absolute_seek_position)
     }
 }
 
-- 
2.43.0


From 4c65a6ccc612f29af6b35d3272f9bb01fd8306d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 21/33] fix: don't leave obsolete seek requests behind

---
 crates/stream-download/src/source/handle.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 51bd672..0f0f3a2 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -68,6 +68,8 @@ impl SourceHandle {
         while self.position_reached.wait_for_position_reached() == WaitResult::PositionReached
             && self.downloaded.next_gap(requested.clone()).is_some()
         {}
+        // A request that hasn't been handled by now is obsolete
+        self.position_request.clear();
     }
 
     pub(crate) fn wait_for_stream_done(&self) {
-- 
2.43.0


From 14e755c324f15f7975697a0e0882421f963d78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 22/33] fix: don't expose overwritten data after moving the
 writer of a bounded storage back

---
 crates/stream-download/src/storage/bounded.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 8a28a03..120a11d 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -368,7 +368,10 @@ where
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
         let retained = shared_info.window_start()..=shared_info.write_position;
-        if !retained.contains(&new_position) {
+        if retained.contains(&new_position) {
+            // Moving back doesn't bring overwritten data back
+            shared_info.window_start = *retained.start();
+        } else {
             shared_info.window_start = new_position;
             shared_info.reader_lagging = true;
         }
-- 
2.43.0


From f8ada4b1b1b5334c1fd12948d3c98562193a3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 23/33] fix: don't read stale data from temporary file storage

---
 crates/stream-download/src/storage/temp.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index 8e724ec..b67de8e 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -5,7 +5,7 @@
 use std::ffi::OsString;
 use std::fmt::Debug;
 use std::fs::File;
-use std::io::{self, BufReader, Read, Seek};
+use std::io::{self, Read, Seek};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -124,9 +124,7 @@ impl StorageProvider for TempStorageProvider {
         .wrap_err("error creating temp file")?;
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
-        let reader = TempStorageReader {
-            reader: BufReader::new(tempfile),
-        };
+        let reader = TempStorageReader { reader: tempfile };
         let writer = handle
             .try_clone()
             .wrap_err("error cloning temporary file")?;
@@ -137,7 +135,8 @@ impl StorageProvider for TempStorageProvider {
 /// Reader created by a [`TempStorageProvider`]. Reads from a temporary file.
 #[derive(Debug)]
 pub struct TempStorageReader {
-    reader: BufReader<NamedTempFile>,
+    // This shouldn't be buffered since buffered data isn't updated by later writes
+    reader: NamedTempFile,
 }
 
 impl Read for TempStorageReader {
-- 
2.43.0


From c1d1782406c78f4d055883825bb9db57e3f36762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 24/33] fix: return an error for content lengths that memory
 storage can't allocate

---
 crates/stream-download/src/storage/memory.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index d70cdfe..a0099b9 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -2,6 +2,7 @@
 //! known, the buffer size will be initialized to the content length, but the buffer will expand
 //! beyond that if required.
 
+use std::hint;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
@@ -32,6 +33,18 @@ impl StorageProvider for MemoryStorageProvider {
                 "Requested buffer size of {initial_buffer_size} exceeds the maximum value"
             ))?;
 
+        // The content length isn't necessarily trustworthy, so make sure it can be allocated first
+        // since a failing allocation would abort the process
+        let mut probe = Vec::<u8>::new();
+        probe
+            .try_reserve_exact(initial_buffer_size)
+            .map_err(|e| io::Error::new(io::ErrorKind::OutOfMemory, e))
+            .wrap_err(&format!(
+                "Requested buffer size of {initial_buffer_size} can't be allocated"
+            ))?;
+        // Prevents the allocation from being optimized out
+        drop(hint::black_box(probe));
+
         let inner = Arc::new(AssertUnwindSafe(RwLock::new(vec![0; initial_buffer_size])));
         let written = Arc::new(AtomicUsize::new(0));
         let reader = MemoryStorage {
-- 
2.43.0


From bd3cdbf1036fcd08d5c0b8730c1df362565d0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 25/33] fix: stop the upstream commands when a process pipeline
 is dropped or can't be spawned

---
 .../src/process/command_builder.rs            |  6 ++--
 crates/stream-download/src/process/mod.rs     | 31 ++++++++++++++++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index 38e2ed8..72fa482 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -1,6 +1,6 @@
 use std::io;
 
-use super::{Command, SpawnCommand, SpawnedCommand};
+use super::{Command, SpawnCommand, SpawnedCommand, UpstreamHandles};
 
 /// A builder object that can pipe multiple commands together and automatically configure the child
 /// process' handles correctly.
@@ -36,14 +36,14 @@ impl SpawnCommand for CommandBuilder {
     fn spawn(mut self) -> io::Result<SpawnedCommand> {
         let last = self.commands.pop().expect("prevented by constructor");
         let mut prev_stdout = None;
-        let mut upstream_handles = Vec::new();
+        let mut upstream_handles = UpstreamHandles::default();
         let mut stderr_files = Vec::new();
 
         for command in self.commands {
             let mut child_handle =
                 command.spawn_child(prev_stdout.take(), &mut stderr_files, false)?;
             prev_stdout = child_handle.stdout.take();
-            upstream_handles.push(child_handle);
+            upstream_handles.0.push(child_handle);
         }
         SpawnedCommand::new(last, prev_stdout, upstream_handles, stderr_files)
     }
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 85770ca..e1634a0 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -149,7 +149,7 @@ impl Command {
 
 impl SpawnCommand for Command {
     fn spawn(self) -> io::Result<SpawnedCommand> {
-        SpawnedCommand::new(self, None, Vec::new(), Vec::new())
+        SpawnedCommand::new(self, None, UpstreamHandles::default(), Vec::new())
     }
 }
 
@@ -159,15 +159,35 @@ pub struct SpawnedCommand {
     child_handle: Child,
     // Commands that (directly or indirectly) pipe into the last one. Keeping track of these allows
     // us to stop them early and prevents them from staying around as zombie processes.
-    upstream_handles: Vec<Child>,
+    upstream_handles: UpstreamHandles,
     stderr_files: Vec<NamedTempFile>,
 }
 
+// Stops the commands when they're dropped without having been released.
+#[derive(Debug, Default)]
+struct UpstreamHandles(Vec<Child>);
+
+impl UpstreamHandles {
+    fn release(&mut self) {
+        self.0.clear();
+    }
+}
+
+impl Drop for UpstreamHandles {
+    fn drop(&mut self) {
+        for handle in &mut self.0 {
+            let _ = handle
+                .start_kill()
+                .inspect_err(|e| debug!("error killing process: {e:?}"));
+        }
+    }
+}
+
 impl SpawnedCommand {
     fn new(
         command: Command,
         prev_out: Option<ChildStdout>,
-        upstream_handles: Vec<Child>,
+        upstream_handles: UpstreamHandles,
         mut stderr_files: Vec<NamedTempFile>,
     ) -> Result<Self, io::Error> {
         Ok(Self {
@@ -227,7 +247,7 @@ impl ProcessStreamParams {
 pub struct ProcessStream {
     stream: AsyncReadStream<ChildStdout>,
     child_handle: Child,
-    upstream_handles: Vec<Child>,
+    upstream_handles: UpstreamHandles,
     stderr_files: Vec<NamedTempFile>,
 }
 
@@ -305,6 +325,7 @@ impl SourceStream for ProcessStream {
     ) -> io::Result<()> {
         let check_command_error = if result.is_ok() {
             let wait_res = self.child_handle.wait().await?;
+            self.upstream_handles.release();
             let command_failed = !wait_res.success();
             if command_failed {
                 warn!("command exited with error code: {wait_res:?}");
@@ -313,7 +334,7 @@ impl SourceStream for ProcessStream {
         } else {
             debug!("killing child processes");
             self.child_handle.kill().await?;
-            for upstream_handle in &mut self.upstream_handles {
+            for upstream_handle in &mut self.upstream_handles.0 {
                 upstream_handle.kill().await?;
             }
             debug!("child processes killed");
-- 
2.43.0


From 976dc03a1b221a1812543d52978ea2fac2fed611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 26/33] fix: don't overflow when reading after a seek to a very
 large position

---
 crates/stream-download/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 07963d4..4330bca 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -586,7 +586,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         trace!(buffer_length = buf.len(), "read requested");
         let stream_position = self.output_reader.stream_position()?;
         let requested_position =
-            self.normalize_requested_position(stream_position + buf.len() as u64);
+            self.normalize_requested_position(stream_position.saturating_add(buf.len() as u64));
         trace!(
             current_position = stream_position,
             requested_position = requested_position
-- 
2.43.0


From 91f3fe11c8ec9cc2720fa0a04b685df49e0c643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 27/33] fix: don't overflow with very large prefetch targets

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index cda71b1..1ed79f2 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -367,7 +367,7 @@ where
                 "failed to write all during prefetch"
             );
         }
-        if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
+        if stream_position.saturating_sub(start_position) >= self.prefetch_bytes || partial_write {
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
-- 
2.43.0


From 53dc2c21345fcd27be34bd9e989c5961d0b1d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 28/33] fix: handle servers that ignore the requested range

---
 crates/stream-download/src/http/mod.rs | 34 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 6dba8c0..5fea4e7 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -37,7 +37,7 @@ use std::time::Instant;
 
 use bytes::Bytes;
 use educe::Educe;
-use futures_util::{Future, Stream, TryStreamExt};
+use futures_util::{Future, Stream, TryStream, TryStreamExt};
 use mediatype::MediaTypeBuf;
 #[cfg(feature = "reqwest")]
 pub use reqwest;
@@ -335,7 +335,18 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 ))
             }
         }?;
-        self.stream = Box::new(response.stream());
+        // Servers may ignore the range and return everything instead
+        let ignored_range = start > 0
+            && self.content_length.is_some()
+            && response.content_length() == self.content_length
+            && response.headers().header("Content-Range").is_none();
+        let stream = response.stream();
+        self.stream = if ignored_range {
+            warn!("the server ignored the requested range, skipping to the requested position");
+            Box::new(skip_bytes(stream, start))
+        } else {
+            Box::new(stream)
+        };
         debug!("done seeking");
         Ok(())
     }
@@ -362,12 +373,7 @@ impl<C: Client> SourceStream for HttpStream<C> {
             self.stream = if self.content_length.is_some() {
                 // The response starts from the beginning, so we need to ignore the part that we
                 // already received.
-                let mut remaining = current_position;
-                Box::new(stream.map_ok(move |mut bytes| {
-                    let skipped = remaining.min(bytes.len() as u64);
-                    remaining -= skipped;
-                    bytes.split_off(skipped as usize)
-                }))
+                Box::new(skip_bytes(stream, current_position))
             } else {
                 Box::new(stream)
             };
@@ -380,6 +386,18 @@ impl<C: Client> SourceStream for HttpStream<C> {
     }
 }
 
+/// Ignores the first part of the stream.
+fn skip_bytes<S: TryStream<Ok = Bytes>>(
+    stream: S,
+    mut remaining: u64,
+) -> impl Stream<Item = Result<Bytes, S::Error>> {
+    stream.map_ok(move |mut bytes| {
+        let skipped = remaining.min(bytes.len() as u64);
+        remaining -= skipped;
+        bytes.split_off(skipped as usize)
+    })
+}
+
 /// HTTP range header key
 pub const RANGE_HEADER_KEY: &str = "Range";
 
-- 
2.43.0


From 0888125f33ea4d94f553565bc3058bae048821fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 29/33] fix: make the download cancellable while the source
 never waits

---
 crates/stream-download/src/source/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 1ed79f2..447d854 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -246,6 +246,9 @@ where
                     Err(_elapsed) => self.handle_reconnect(stream).await?,
                 }
             };
+            // A source may keep returning errors or empty responses without ever waiting for
+            // anything. The task still has to be able to notice that it was cancelled.
+            yield_now().await;
             last_activity = tokio::time::Instant::now();
         }
         self.report_download_complete(stream, download_start)?;
-- 
2.43.0


From dd8a267689d0bf99ba0539b9449c5e919c78f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 30/33] fix: ignore data after the announced content length

---
 crates/stream-download/src/source/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 447d854..fa433f3 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -434,7 +434,7 @@ where
         bytes: Option<Result<Bytes, S::Error>>,
         download_start: Instant,
     ) -> io::Result<DownloadAction> {
-        let bytes = match bytes.transpose() {
+        let mut bytes = match bytes.transpose() {
             Ok(bytes) => bytes,
             Err(e) => {
                 error!("Error fetching chunk from stream: {e:?}");
@@ -442,6 +442,13 @@ where
             }
         };
 
+        if let (Some(bytes), Some(content_length)) = (&mut bytes, self.content_length) {
+            // Anything after the announced end can't be read, so a bounded storage would never get
+            // any space for it
+            let remaining = content_length.saturating_sub(self.writer.stream_position()?);
+            bytes.truncate(usize::try_from(remaining).unwrap_or(usize::MAX));
+        }
+
         if bytes.as_ref().is_some_and(Bytes::is_empty) {
             return Ok(DownloadAction::Continue);
         }
-- 
2.43.0


From 656db76cef834e536df38efdeb46f3c02b4730fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:13 +0000
Subject: [PATCH 31/33] fix: download the rest of the content before the gaps
 left behind by seeks

---
 crates/stream-download/src/source/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index fa433f3..bca546a 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -397,7 +397,12 @@ where
             && !self.bounded_storage
             && let Some(content_length) = self.content_length
         {
-            let gap = self.downloaded.next_gap(0..content_length);
+            // The reader is more likely to need what follows than what it skipped
+            let position = self.writer.stream_position()?;
+            let gap = self
+                .downloaded
+                .next_gap(position..content_length)
+                .or_else(|| self.downloaded.next_gap(0..content_length));
             if let Some(gap) = gap {
                 debug!(
                     missing = format!("{gap:?}"),
-- 
2.43.0


From 3c72c94426cd8e1f366d640c6846aa6d76c3067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 32/33] fix: keep the structured suffix of a content type's
 subtype

---
 crates/stream-download/src/http/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 5fea4e7..326ebd8 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -230,7 +230,10 @@ impl<C: Client> HttpStream<C> {
                 match content_type.parse::<MediaTypeBuf>() {
                     Ok(content_type) => Some(ContentType {
                         r#type: content_type.ty().to_string(),
-                        subtype: content_type.subty().to_string(),
+                        subtype: content_type.suffix().map_or_else(
+                            || content_type.subty().to_string(),
+                            |suffix| format!("{}+{suffix}", content_type.subty()),
+                        ),
                     }),
                     Err(e) => {
                         warn!("error parsing content type: {e:?}");
-- 
2.43.0


From 07afd09a51d3f15078d89f6264294801fdd3ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:01 +0000
Subject: [PATCH 33/33] fix: wake up the reader when the download task panics
 or its runtime is shut down

---
 crates/stream-download/src/lib.rs           |  4 +++-
 crates/stream-download/src/source/handle.rs |  4 ++++
 crates/stream-download/src/source/mod.rs    | 11 +++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 4330bca..909aa02 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -403,7 +403,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(
+        let source = Source::new(
             writer,
             content_length,
             storage_capacity,
@@ -419,6 +419,8 @@ impl<P: StorageProvider> StreamDownload<P> {
             let finished_guard = finished.clone().drop_guard();
             async move {
                 let _finished_guard = finished_guard;
+                // Dropped before the guard
+                let mut source = source;
                 source.download(stream).await;
                 drop(source);
                 cancellation_token.cancel();
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 0f0f3a2..de1f792 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -217,6 +217,10 @@ impl PositionReached {
         cvar.notify_all();
     }
 
+    pub(super) fn is_stream_done(&self) -> bool {
+        self.0.0.lock().stream_done
+    }
+
     fn wait_for_position_reached(&self) -> WaitResult {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index bca546a..37597ff 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -663,3 +663,14 @@ where
         }
     }
 }
+
+impl<S: SourceStream, W: StorageWriter> Drop for Source<S, W> {
+    fn drop(&mut self) {
+        // The task doesn't get to report anything if it panics or if its runtime is shut down.
+        // Nothing will ever be downloaded in this case, so the reader must not wait any longer.
+        if !self.position_reached.is_stream_done() {
+            self.download_status.set_failed();
+            self.position_reached.notify_stream_done();
+        }
+    }
+}
-- 
2.43.0

