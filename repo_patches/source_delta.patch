From 875483fe2ebc349655cbb2da8c0c599e32b66b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 01/17] hooks: route the client's std atomics and locks through
 vp_sync (instrumented under --cfg vp_hooks)

---
 source/postcard-rpc/src/host_client/mod.rs    |   7 +-
 source/postcard-rpc/src/lib.rs                |   3 +
 .../src/server/impls/test_channels.rs         |   4 +-
 source/postcard-rpc/src/vp_sync.rs            | 113 ++++++++++++++++++
 4 files changed, 122 insertions(+), 5 deletions(-)
 create mode 100644 source/postcard-rpc/src/vp_sync.rs

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..ed878cf 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -8,12 +8,11 @@ use std::{
     collections::HashSet,
     future::Future,
     marker::PhantomData,
-    sync::{
-        atomic::{AtomicU32, Ordering},
-        Arc, RwLock,
-    },
+    sync::{atomic::Ordering, Arc},
 };
 
+use crate::vp_sync::{AtomicU32, RwLock};
+
 use maitake_sync::{
     wait_map::{WaitError, WakeOutcome},
     WaitMap,
diff --git a/source/postcard-rpc/src/lib.rs b/source/postcard-rpc/src/lib.rs
index 4a6615e..39fb4e0 100644
--- a/source/postcard-rpc/src/lib.rs
+++ b/source/postcard-rpc/src/lib.rs
@@ -131,6 +131,9 @@ pub mod accumulator;
 #[cfg(feature = "use-std")]
 pub mod host_client;
 
+#[cfg(feature = "use-std")]
+mod vp_sync;
+
 #[cfg(any(test, feature = "test-utils"))]
 pub mod test_utils;
 
diff --git a/source/postcard-rpc/src/server/impls/test_channels.rs b/source/postcard-rpc/src/server/impls/test_channels.rs
index de065f6..8881287 100644
--- a/source/postcard-rpc/src/server/impls/test_channels.rs
+++ b/source/postcard-rpc/src/server/impls/test_channels.rs
@@ -3,8 +3,10 @@
 use core::{
     convert::Infallible,
     future::{pending, Future},
-    sync::atomic::{AtomicU32, Ordering},
+    sync::atomic::Ordering,
 };
+
+use crate::vp_sync::AtomicU32;
 use std::sync::Arc;
 
 use crate::{
diff --git a/source/postcard-rpc/src/vp_sync.rs b/source/postcard-rpc/src/vp_sync.rs
new file mode 100644
index 0000000..bc7f1a3
--- /dev/null
+++ b/source/postcard-rpc/src/vp_sync.rs
@@ -0,0 +1,113 @@
+//! The std synchronisation primitives used by this crate.
+//!
+//! With `--cfg vp_hooks` every operation first calls `vp_point`, which the
+//! verification harness provides and uses to explore interleavings.
+#![allow(unexpected_cfgs, dead_code)]
+
+#[cfg(not(vp_hooks))]
+pub(crate) use std::sync::{atomic::AtomicU32, RwLock};
+
+#[cfg(vp_hooks)]
+pub(crate) use hooked::{AtomicU32, RwLock};
+
+#[cfg(vp_hooks)]
+mod hooked {
+    use std::sync::{
+        atomic::Ordering, LockResult, PoisonError, RwLockReadGuard, RwLockWriteGuard, TryLockError,
+    };
+
+    extern "Rust" {
+        fn vp_point(tag: &'static str);
+        fn vp_spin(tag: &'static str);
+    }
+
+    fn point(tag: &'static str) {
+        unsafe { vp_point(tag) }
+    }
+
+    #[derive(Debug, Default)]
+    pub(crate) struct AtomicU32(std::sync::atomic::AtomicU32);
+
+    macro_rules! forward {
+        ($($name:ident($($arg:ident: $ty:ty),*) -> $ret:ty;)*) => {
+            $(pub(crate) fn $name(&self, $($arg: $ty),*) -> $ret {
+                point(concat!("atomic.", stringify!($name)));
+                self.0.$name($($arg),*)
+            })*
+        };
+    }
+
+    impl AtomicU32 {
+        pub(crate) const fn new(v: u32) -> Self {
+            Self(std::sync::atomic::AtomicU32::new(v))
+        }
+        forward! {
+            load(o: Ordering) -> u32;
+            store(v: u32, o: Ordering) -> ();
+            swap(v: u32, o: Ordering) -> u32;
+            fetch_add(v: u32, o: Ordering) -> u32;
+            fetch_sub(v: u32, o: Ordering) -> u32;
+            fetch_and(v: u32, o: Ordering) -> u32;
+            fetch_or(v: u32, o: Ordering) -> u32;
+            fetch_xor(v: u32, o: Ordering) -> u32;
+            fetch_max(v: u32, o: Ordering) -> u32;
+            fetch_min(v: u32, o: Ordering) -> u32;
+            compare_exchange(a: u32, b: u32, s: Ordering, f: Ordering) -> Result<u32, u32>;
+            compare_exchange_weak(a: u32, b: u32, s: Ordering, f: Ordering) -> Result<u32, u32>;
+        }
+        pub(crate) fn fetch_update(
+            &self,
+            s: Ordering,
+            f: Ordering,
+            func: impl FnMut(u32) -> Option<u32>,
+        ) -> Result<u32, u32> {
+            point("atomic.fetch_update");
+            self.0.fetch_update(s, f, func)
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub(crate) struct RwLock<T>(std::sync::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub(crate) const fn new(t: T) -> Self {
+            Self(std::sync::RwLock::new(t))
+        }
+        pub(crate) fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            point("rwlock.read");
+            loop {
+                match self.0.try_read() {
+                    Ok(g) => return Ok(g),
+                    Err(TryLockError::Poisoned(p)) => {
+                        return Err(PoisonError::new(p.into_inner()))
+                    }
+                    Err(TryLockError::WouldBlock) => unsafe { vp_spin("rwlock.read") },
+                }
+            }
+        }
+        pub(crate) fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            point("rwlock.write");
+            loop {
+                match self.0.try_write() {
+                    Ok(g) => return Ok(g),
+                    Err(TryLockError::Poisoned(p)) => {
+                        return Err(PoisonError::new(p.into_inner()))
+                    }
+                    Err(TryLockError::WouldBlock) => unsafe { vp_spin("rwlock.write") },
+                }
+            }
+        }
+        pub(crate) fn try_read(
+            &self,
+        ) -> Result<RwLockReadGuard<'_, T>, TryLockError<RwLockReadGuard<'_, T>>> {
+            point("rwlock.try_read");
+            self.0.try_read()
+        }
+        pub(crate) fn try_write(
+            &self,
+        ) -> Result<RwLockWriteGuard<'_, T>, TryLockError<RwLockWriteGuard<'_, T>>> {
+            point("rwlock.try_write");
+            self.0.try_write()
+        }
+    }
+}
-- 
2.43.0


From 0fa2987f1553d6a8f3aeeee9ea9e5b3374aefdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 02/17] fix: send requests with the configured sequence number
 width

HostClient stored seq_kind but never applied it: every request went out with
a 4-byte sequence number.
---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index ed878cf..33b688f 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -358,6 +358,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From 0f587b6a539d10c2fe8b46efe2b0ab818da550fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:03 +0000
Subject: [PATCH 03/17] hooks: leave test_channels alone

---
 source/postcard-rpc/src/server/impls/test_channels.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/test_channels.rs b/source/postcard-rpc/src/server/impls/test_channels.rs
index 8881287..de065f6 100644
--- a/source/postcard-rpc/src/server/impls/test_channels.rs
+++ b/source/postcard-rpc/src/server/impls/test_channels.rs
@@ -3,10 +3,8 @@
 use core::{
     convert::Infallible,
     future::{pending, Future},
-    sync::atomic::Ordering,
+    sync::atomic::{AtomicU32, Ordering},
 };
-
-use crate::vp_sync::AtomicU32;
 use std::sync::Arc;
 
 use crate::{
-- 
2.43.0


From 42b78fc15bb9ce7e5d34b20b594776f619f1267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:54 +0000
Subject: [PATCH 04/17] fix: discard the rest of an over-full COBS frame
 instead of decoding it

---
 source/postcard-rpc/src/accumulator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/postcard-rpc/src/accumulator.rs b/source/postcard-rpc/src/accumulator.rs
index 493ba80..f0d3e46 100644
--- a/source/postcard-rpc/src/accumulator.rs
+++ b/source/postcard-rpc/src/accumulator.rs
@@ -13,6 +13,8 @@ pub mod raw {
     pub struct CobsAccumulator<const N: usize> {
         buf: [u8; N],
         idx: usize,
+        /// The current frame did not fit, discard the rest of it
+        discarding: bool,
     }
 
     /// The result of feeding the accumulator.
@@ -43,6 +45,7 @@ pub mod raw {
             CobsAccumulator {
                 buf: [0; N],
                 idx: 0,
+                discarding: false,
             }
         }
 
@@ -60,6 +63,19 @@ pub mod raw {
         /// mutably borrows the accumulator for the lifetime of the deserialization.
         /// If `T` does not require the reference, the borrow of `self` ends at the end of the function.
         pub fn feed_ref<'a, 'b>(&'b mut self, input: &'a [u8]) -> FeedResult<'a, 'b> {
+            let mut input = input;
+
+            // Drop the tail of a frame that was already reported as over-full
+            if self.discarding {
+                match input.iter().position(|&i| i == 0) {
+                    Some(n) => {
+                        self.discarding = false;
+                        input = &input[n + 1..];
+                    }
+                    None => return FeedResult::Consumed,
+                }
+            }
+
             if input.is_empty() {
                 return FeedResult::Consumed;
             }
@@ -96,6 +112,7 @@ pub mod raw {
                     // nope
                     let new_start = N - self.idx;
                     self.idx = 0;
+                    self.discarding = true;
                     FeedResult::OverFull(&input[new_start..])
                 } else {
                     // yup!
-- 
2.43.0


From 9df3dc9ad63478d7eb5446ee790f6d807b8e9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:53 +0000
Subject: [PATCH 05/17] fix: count the error reply's key when sizing a
 dispatcher's keys

A response or outgoing topic whose reduced key coincided with that of the
error reply was indistinguishable from an error on the wire.
---
 source/postcard-rpc/src/server/dispatch_macro.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..b169574 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,7 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From 5cd43982e8ddb0ddb1b80d5d54ae586a1262d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:53 +0000
Subject: [PATCH 06/17] fix: report the types nested in newtype enum variants

unique_types! recorded the type wrapped by a newtype variant, but none of the
types that one contains.
---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..91a7e3a 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this variant
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this variant...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From 0c1f16c090a1e8f8c55a8fe43bf21d27ddfbfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 07/17] fix: report lost data when a type of the schema report
 is missing

get_schema_report compared every total but the number of types.
---
 source/postcard-rpc/src/host_client/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 33b688f..bc6afca 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -273,10 +273,12 @@ where
         };
         let mut rpt = SchemaReport::default();
         let mut e_and_t = vec![];
+        let mut types_received = 0;
 
         for d in data {
             match d {
                 OwnedSchemaData::Type(d) => {
+                    types_received += 1;
                     rpt.add_type(d);
                 }
                 e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
@@ -306,6 +308,7 @@ where
         }
 
         let mut data_matches = true;
+        data_matches &= resp.types_sent == types_received;
         data_matches &= resp.endpoints_sent as usize == rpt.endpoints.len();
         data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
         data_matches &= resp.topics_out_sent as usize == rpt.topics_out.len();
-- 
2.43.0


From 527e16e1c0b954b3f5f6820b4d5c6342db56273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:32 +0000
Subject: [PATCH 08/17] fix: count each schema item once when reports are
 requested concurrently

Data streamed for another report of the same device made up for lost items in
the totals, so an incomplete report could be returned.
---
 source/postcard-rpc/src/host_client/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index bc6afca..2e4086e 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -275,7 +275,16 @@ where
         let mut e_and_t = vec![];
         let mut types_received = 0;
 
+        // If another report is requested at the same time, we also see the data
+        // sent for that one. Only count each item once.
+        let mut unique = vec![];
         for d in data {
+            if !unique.contains(&d) {
+                unique.push(d);
+            }
+        }
+
+        for d in unique {
             match d {
                 OwnedSchemaData::Type(d) => {
                     types_received += 1;
-- 
2.43.0


From c547e19cd3547317a6ea3b048602bff29a439cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:27 +0000
Subject: [PATCH 09/17] fix: serial client drops valid messages shorter than
 nine bytes

A frame with a shortened key and sequence number is as short as three bytes
(discriminant, one byte key, one byte sequence number), which is what servers
with few endpoints send.
---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..bb85743 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -211,10 +211,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // TODO hacky check: the minimum size of a message is 3 bytes,
+                        // one each for the discriminant, the shortest key, and the
+                        // shortest seq_no. Discard any "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From 39a9b8a39928966ffdc7985439209bbb86cc675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:27 +0000
Subject: [PATCH 10/17] fix: serial client spins forever once the port hangs up

A read of zero bytes is the end of the stream. It was retried at once and
forever, so the client never closed and pending calls never completed.
---
 source/postcard-rpc/src/host_client/serial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index bb85743..3b5999e 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -191,6 +191,10 @@ impl SerialWireRx {
             // Nothing in the pending queue, do a read to see if we can pull more
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
+            if used == 0 {
+                // End of stream: the port hung up, nothing will ever be read again
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
 
             let mut window = &self.buf[..used];
 
-- 
2.43.0


From b3123fe47538c78c8bfe59a6110aaca1eaaab15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 11/17] fix: sending a formatted log longer than the buffer
 panics

The truncated copy took the whole fragment as its source, so copy_from_slice
panicked on the length mismatch.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..5ab7fae 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..589b698 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From a86abe7a243bbbb09459fed626d51d9d465c769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 12/17] fix: reserve enough bytes for the length of formatted
 logs

A varint byte holds seven bits, so lengths from 128 on need two bytes. With
128 to 255 bytes of room only one was reserved and writing the length
panicked.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 5ab7fae..4a962ab 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 589b698..4faa0bb 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From 7aac21f51d70be3540a2158e1f33fcaf16709163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 13/17] fix: do not split characters when truncating formatted
 logs

A log cut in the middle of a multi-byte character does not decode as a
string, so the whole message was lost.
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 23 +++++++++++++------
 .../src/server/impls/embassy_usb_v0_4.rs      | 23 +++++++++++++------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 4a962ab..813cdcf 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -376,14 +376,20 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Calculate the number of bytes used *for formatting*.
         let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - remain;
 
         // If we had an error, that's probably because we ran out
         // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
+        // bytes, then end the text with '.'s like ..., replacing
+        // whole characters only
         if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+            let start = used.min(body_len - 3);
+            let start = match core::str::from_utf8(&body[..start]) {
+                Ok(s) => s.len(),
+                Err(e) => e.valid_up_to(),
+            };
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -402,7 +408,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame).await
     }
@@ -465,9 +471,12 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let sli = core::mem::take(&mut self.0);
 
         // If this write would overflow us, note that, but still take
-        // as much as we possibly can here
+        // as much as we possibly can here, without splitting a character
         let bad = s.len() > sli.len();
-        let to_write = s.len().min(sli.len());
+        let mut to_write = s.len().min(sli.len());
+        while !s.is_char_boundary(to_write) {
+            to_write -= 1;
+        }
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 4faa0bb..3e0889b 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -423,14 +423,20 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Calculate the number of bytes used *for formatting*.
         let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - remain;
 
         // If we had an error, that's probably because we ran out
         // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
+        // bytes, then end the text with '.'s like ..., replacing
+        // whole characters only
         if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+            let start = used.min(body_len - 3);
+            let start = match core::str::from_utf8(&body[..start]) {
+                Ok(s) => s.len(),
+                Err(e) => e.valid_up_to(),
+            };
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -449,7 +455,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame, *timeout_ms_per_frame).await
     }
@@ -513,9 +519,12 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let sli = core::mem::take(&mut self.0);
 
         // If this write would overflow us, note that, but still take
-        // as much as we possibly can here
+        // as much as we possibly can here, without splitting a character
         let bad = s.len() > sli.len();
-        let to_write = s.len().min(sli.len());
+        let mut to_write = s.len().min(sli.len());
+        while !s.is_char_boundary(to_write) {
+            to_write -= 1;
+        }
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
-- 
2.43.0


From 43119683e479d8f0efa61381cf2c04004a15af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:20 +0000
Subject: [PATCH 14/17] fix: receive frames of any size that fits the buffer
 over embassy-usb

The last packet of a frame was read into whatever room was left. Unless the
buffer is a multiple of 64 bytes long, a packet that does not fit there was
reported as an overflow without discarding the rest of the frame, which was
then taken for the next frame (or, with drivers that keep such a packet, never
went away). A frame of exactly the size of the buffer was refused when that is
a multiple of 64.
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 26 ++++++++++++++++---
 .../src/server/impls/embassy_usb_v0_4.rs      | 26 ++++++++++++++++---
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 813cdcf..9ff4277 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -552,8 +552,16 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
-        while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+        // Used for packets that might not fit in the rest of the buffer
+        let mut spare = [0u8; 64];
+        loop {
+            let direct = window.len() >= spare.len();
+            let target = if direct {
+                &mut window[..]
+            } else {
+                &mut spare[..]
+            };
+            let n = match self.ep_out.read(target).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -561,7 +569,17 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
+            if n > window.len() {
+                if n != 64 {
+                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
+                }
+                break;
+            }
+
+            let (now, later) = window.split_at_mut(n);
+            if !direct {
+                now.copy_from_slice(&spare[..n]);
+            }
             window = later;
             if n != 64 {
                 // We now have a full frame! Great!
@@ -576,7 +594,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut spare).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 3e0889b..3e8e2db 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -600,8 +600,16 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
-        while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+        // Used for packets that might not fit in the rest of the buffer
+        let mut spare = [0u8; 64];
+        loop {
+            let direct = window.len() >= spare.len();
+            let target = if direct {
+                &mut window[..]
+            } else {
+                &mut spare[..]
+            };
+            let n = match self.ep_out.read(target).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -609,7 +617,17 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
+            if n > window.len() {
+                if n != 64 {
+                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
+                }
+                break;
+            }
+
+            let (now, later) = window.split_at_mut(n);
+            if !direct {
+                now.copy_from_slice(&spare[..n]);
+            }
             window = later;
             if n != 64 {
                 // We now have a full frame! Great!
@@ -624,7 +642,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut spare).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
-- 
2.43.0


From 967c41b90f6282651ac9b17fe614874d521c851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:34 +0000
Subject: [PATCH 15/17] hooks: allow building the webusb client for other
 targets with vp_hooks

---
 source/postcard-rpc/src/host_client/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 2e4086e..e15779d 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -3,6 +3,8 @@
 //! This library is meant to be used with the `Dispatch` type and the
 //! postcard-rpc wire protocol.
 
+#![allow(unexpected_cfgs)] // vp_hooks
+
 use core::time::Duration;
 use std::{
     collections::HashSet,
@@ -40,7 +42,7 @@ mod raw_nusb;
 #[cfg(all(feature = "cobs-serial", not(target_family = "wasm")))]
 mod serial;
 
-#[cfg(all(feature = "webusb", target_family = "wasm"))]
+#[cfg(all(feature = "webusb", any(target_family = "wasm", vp_hooks)))]
 pub mod webusb;
 
 pub(crate) mod util;
-- 
2.43.0


From 54d32940c460baca21f538cd2e78da1335e5fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:34 +0000
Subject: [PATCH 16/17] fix: webusb client ignores that an outgoing transfer
 stalled

WebUSB fulfils the promise of a stalled transfer, with the status "stall". The
frame counted as sent, and the client stayed open.
---
 source/postcard-rpc/src/host_client/webusb.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/webusb.rs b/source/postcard-rpc/src/host_client/webusb.rs
index 8609f82..3c4fa74 100644
--- a/source/postcard-rpc/src/host_client/webusb.rs
+++ b/source/postcard-rpc/src/host_client/webusb.rs
@@ -7,7 +7,7 @@ use serde_json::json;
 use tracing::info;
 use wasm_bindgen::{prelude::*, JsCast};
 use wasm_bindgen_futures::{spawn_local, JsFuture};
-use web_sys::{UsbDevice, UsbInTransferResult, UsbTransferStatus};
+use web_sys::{UsbDevice, UsbInTransferResult, UsbOutTransferResult, UsbTransferStatus};
 
 use crate::header::VarSeqKind;
 use crate::host_client::{HostClient, WireRx, WireSpawn, WireTx};
@@ -159,8 +159,15 @@ impl WireTx for WebUsbWire {
         let data: js_sys::Uint8Array = data.as_slice().into();
         // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
         // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
-        JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &data)?).await?;
-        Ok(())
+        let res: UsbOutTransferResult =
+            JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &data)?)
+                .await?
+                .into();
+        // A stalled transfer is reported by its status, not as an exception
+        match res.status() {
+            UsbTransferStatus::Ok => Ok(()),
+            status => Err(status.into()),
+        }
     }
 }
 
-- 
2.43.0


From 0ea8b7a88b7eae9c29504a58c6d581ca6e0835da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:34 +0000
Subject: [PATCH 17/17] fix: webusb client does not mark the end of frames that
 fill their last packet

Devices collect packets until one is short. A frame whose length is a multiple
of the packet size was only complete for them with the next one, whose bytes
were appended to it. End such frames with an empty packet, as the other clients
do.
---
 source/postcard-rpc/src/host_client/webusb.rs | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/webusb.rs b/source/postcard-rpc/src/host_client/webusb.rs
index 3c4fa74..39531d3 100644
--- a/source/postcard-rpc/src/host_client/webusb.rs
+++ b/source/postcard-rpc/src/host_client/webusb.rs
@@ -12,6 +12,9 @@ use web_sys::{UsbDevice, UsbInTransferResult, UsbOutTransferResult, UsbTransferS
 use crate::header::VarSeqKind;
 use crate::host_client::{HostClient, WireRx, WireSpawn, WireTx};
 
+/// Size of the bulk packets of postcard-rpc devices
+const USB_PACKET_SIZE: usize = 64;
+
 /// Implementation of the wire interface for WebUsb
 #[derive(Clone)]
 pub struct WebUsbWire {
@@ -149,14 +152,10 @@ impl WebUsbWire {
             ep_out,
         })
     }
-}
-
-impl WireTx for WebUsbWire {
-    type Error = Error;
 
-    async fn send(&mut self, data: Vec<u8>) -> Result<(), Self::Error> {
-        tracing::trace!("send…");
-        let data: js_sys::Uint8Array = data.as_slice().into();
+    /// Carry out a single transfer to the device
+    async fn transfer_out(&self, data: &[u8]) -> Result<(), Error> {
+        let data: js_sys::Uint8Array = data.into();
         // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
         // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
         let res: UsbOutTransferResult =
@@ -171,6 +170,20 @@ impl WireTx for WebUsbWire {
     }
 }
 
+impl WireTx for WebUsbWire {
+    type Error = Error;
+
+    async fn send(&mut self, data: Vec<u8>) -> Result<(), Self::Error> {
+        tracing::trace!("send…");
+        self.transfer_out(&data).await?;
+        // Append a ZLP if the transfer does not end with a short packet
+        if data.len() % USB_PACKET_SIZE == 0 {
+            self.transfer_out(&[]).await?;
+        }
+        Ok(())
+    }
+}
+
 impl WireRx for WebUsbWire {
     type Error = Error;
 
-- 
2.43.0

