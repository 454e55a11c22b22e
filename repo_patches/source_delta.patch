From 70aaab5312180751b0feb4e1e60b78ba044c9b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:36 +0000
Subject: [PATCH 01/35] sim: add simulation seam behind --cfg fundsp_sim

---
 src/dynamics.rs  |   3 +
 src/lib.rs       |   4 ++
 src/net.rs       |   3 +
 src/read.rs      |   6 ++
 src/realnet.rs   |   3 +
 src/realseq.rs   |   3 +
 src/ring.rs      |   3 +
 src/sequencer.rs |   3 +
 src/setting.rs   |   3 +
 src/shared.rs    |  15 +++-
 src/sim.rs       | 184 +++++++++++++++++++++++++++++++++++++++++++++++
 src/slot.rs      |   3 +
 src/snoop.rs     |   3 +
 src/vertex.rs    |   3 +
 src/wavetable.rs |   3 +
 15 files changed, 241 insertions(+), 1 deletion(-)
 create mode 100644 src/sim.rs

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..d925c8d 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -7,6 +7,9 @@ use super::math::*;
 use super::shared::*;
 use super::signal::*;
 use super::*;
+#[cfg(fundsp_sim)]
+use crate::sim::AtomicU32;
+#[cfg(not(fundsp_sim))]
 use core::sync::atomic::AtomicU32;
 use numeric_array::typenum::*;
 extern crate alloc;
diff --git a/src/lib.rs b/src/lib.rs
index e5af664..b8f96b0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,6 +18,8 @@
     clippy::too_many_arguments,
     clippy::comparison_chain
 )]
+// The simulation seam is enabled with `--cfg fundsp_sim`.
+#![allow(unexpected_cfgs)]
 
 use numeric_array::{ArrayLength, NumericArray};
 use typenum::{U1, U4, U8};
@@ -864,6 +866,8 @@ pub mod setting;
 pub mod shape;
 pub mod shared;
 pub mod signal;
+#[cfg(fundsp_sim)]
+pub mod sim;
 pub mod slot;
 pub mod snoop;
 pub mod sound;
diff --git a/src/net.rs b/src/net.rs
index 5fe667c..e832c42 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -11,7 +11,10 @@ use super::shared::IdGenerator;
 use super::signal::*;
 use super::vertex::*;
 use super::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
 use hashbrown::HashMap;
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 extern crate alloc;
 use super::sequencer::Fade;
diff --git a/src/read.rs b/src/read.rs
index f4c68a0..6dd35e1 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -63,6 +63,12 @@ impl Wave {
         Wave::decode(source, track, hint)
     }
 
+    /// Load audio from a source supplied by the simulator.
+    #[cfg(fundsp_sim)]
+    pub fn load_source(source: Box<dyn MediaSource>, track: Option<usize>) -> WaveResult<Wave> {
+        Wave::decode(source, track, Hint::new())
+    }
+
     /// Decode track from the given source.
     fn decode(source: Box<dyn MediaSource>, track: Option<usize>, hint: Hint) -> WaveResult<Wave> {
         let stream = MediaSourceStream::new(source, Default::default());
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..74c1ee1 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -6,6 +6,9 @@ use super::math::*;
 use super::net::*;
 use super::setting::*;
 use super::signal::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 extern crate alloc;
 use alloc::boxed::Box;
diff --git a/src/realseq.rs b/src/realseq.rs
index 9e3089d..3228478 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -5,6 +5,9 @@ use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
 use super::signal::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 
 #[derive(Default, Clone)]
diff --git a/src/ring.rs b/src/ring.rs
index 5f9ffe3..2d4a33b 100644
--- a/src/ring.rs
+++ b/src/ring.rs
@@ -5,6 +5,9 @@ use super::combinator::An;
 use super::signal::*;
 use super::typenum::*;
 use super::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 
 pub struct Ring<N: Size<f32>> {
diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..2b33a15 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -9,11 +9,14 @@ use super::signal::*;
 use super::*;
 use core::cmp::{Eq, Ord, Ordering};
 extern crate alloc;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
 use alloc::boxed::Box;
 use alloc::collections::BinaryHeap;
 use alloc::vec;
 use alloc::vec::Vec;
 use hashbrown::HashMap;
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 
 /// Globally unique ID for a sequencer event.
diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..8cf225d 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -7,7 +7,10 @@ use super::math::*;
 use super::net::NodeId;
 use super::signal::*;
 use super::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
 pub use thingbuf::mpsc::errors::TrySendError;
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 use tinyvec::ArrayVec;
 
diff --git a/src/shared.rs b/src/shared.rs
index ac60ec5..7241ca6 100644
--- a/src/shared.rs
+++ b/src/shared.rs
@@ -5,7 +5,11 @@ use super::buffer::*;
 use super::combinator::*;
 use super::signal::*;
 use super::*;
-use core::sync::atomic::{AtomicU32, Ordering};
+#[cfg(fundsp_sim)]
+use crate::sim::AtomicU32;
+#[cfg(not(fundsp_sim))]
+use core::sync::atomic::AtomicU32;
+use core::sync::atomic::Ordering;
 
 use numeric_array::typenum::*;
 extern crate alloc;
@@ -408,6 +412,15 @@ impl IdGenerator {
         }
     }
 
+    /// Generator that has reached the given state.
+    #[cfg(fundsp_sim)]
+    pub const fn with_state(low: u32, high: u32) -> Self {
+        Self {
+            low: AtomicU32::new(low),
+            high: AtomicU32::new(high),
+        }
+    }
+
     /// Generate a unique 64-bit ID.
     pub fn get_id(&self) -> u64 {
         // TODO. I have no idea whether the atomic orderings are correct in the following.
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..f21d940
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,184 @@
+//! Simulation seam. Compiled only with `--cfg fundsp_sim`; never part of a shipped build.
+//!
+//! Drop-in replacements for the channel and atomic types that threads communicate through.
+//! They delegate to the very same implementations (`thingbuf`, `core::sync::atomic`) and tell
+//! an installed [`Hook`] about each operation, so that a simulator can decide what runs next
+//! at every point where threads can observe each other.
+
+extern crate alloc;
+use alloc::boxed::Box;
+use core::ops::Deref;
+use core::sync::atomic::Ordering;
+use once_cell::race::OnceBox;
+
+/// Simulator callbacks.
+pub trait Hook: Sync {
+    /// A scheduling point: another simulated thread may run here.
+    fn point(&self, site: &'static str);
+    /// The capacity to give a channel for which `requested` slots were requested.
+    fn capacity(&self, requested: usize) -> usize;
+    /// Whether something unusual but legal should happen at `site`.
+    fn flip(&self, site: &'static str) -> bool;
+}
+
+static HOOK: OnceBox<&'static dyn Hook> = OnceBox::new();
+
+/// Install the simulator. Can be called once per process.
+pub fn install(hook: &'static dyn Hook) {
+    let _ = HOOK.set(Box::new(hook));
+}
+
+/// Announce a scheduling point.
+#[inline]
+pub fn point(site: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook.point(site);
+    }
+}
+
+fn flip(site: &'static str) -> bool {
+    match HOOK.get() {
+        Some(hook) => hook.flip(site),
+        None => false,
+    }
+}
+
+/// Channels: `thingbuf` with scheduling points.
+pub mod mpsc {
+    use super::*;
+    use thingbuf::mpsc as real;
+    use thingbuf::mpsc::errors::{TryRecvError, TrySendError};
+
+    pub struct Sender<T>(real::Sender<T>);
+    pub struct Receiver<T>(real::Receiver<T>);
+
+    pub fn channel<T: Default + Clone>(capacity: usize) -> (Sender<T>, Receiver<T>) {
+        let capacity = match HOOK.get() {
+            Some(hook) => hook.capacity(capacity),
+            None => capacity,
+        };
+        let (sender, receiver) = real::channel(capacity);
+        (Sender(sender), Receiver(receiver))
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            Self(self.0.clone())
+        }
+    }
+
+    impl<T> Deref for Sender<T> {
+        type Target = real::Sender<T>;
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    impl<T> Deref for Receiver<T> {
+        type Target = real::Receiver<T>;
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    impl<T: Default + Clone> Sender<T> {
+        pub fn try_send(&self, value: T) -> Result<(), TrySendError<T>> {
+            point("send");
+            let result = self.0.try_send(value);
+            point("sent");
+            result
+        }
+    }
+
+    impl<T: Default + Clone> Receiver<T> {
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            point("recv");
+            let result = self.0.try_recv();
+            point("received");
+            result
+        }
+    }
+}
+
+/// Atomic word with scheduling points.
+#[derive(Default, Debug)]
+pub struct AtomicU32(core::sync::atomic::AtomicU32);
+
+impl From<u32> for AtomicU32 {
+    fn from(value: u32) -> Self {
+        Self(value.into())
+    }
+}
+
+impl Deref for AtomicU32 {
+    type Target = core::sync::atomic::AtomicU32;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl AtomicU32 {
+    pub const fn new(value: u32) -> Self {
+        Self(core::sync::atomic::AtomicU32::new(value))
+    }
+    pub fn load(&self, order: Ordering) -> u32 {
+        point("load");
+        self.0.load(order)
+    }
+    pub fn store(&self, value: u32, order: Ordering) {
+        point("store");
+        self.0.store(value, order)
+    }
+    pub fn swap(&self, value: u32, order: Ordering) -> u32 {
+        point("swap");
+        self.0.swap(value, order)
+    }
+    pub fn fetch_add(&self, value: u32, order: Ordering) -> u32 {
+        point("fetch_add");
+        self.0.fetch_add(value, order)
+    }
+    pub fn fetch_sub(&self, value: u32, order: Ordering) -> u32 {
+        point("fetch_sub");
+        self.0.fetch_sub(value, order)
+    }
+    pub fn compare_exchange(
+        &self,
+        current: u32,
+        new: u32,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u32, u32> {
+        point("cas");
+        self.0.compare_exchange(current, new, success, failure)
+    }
+    pub fn compare_exchange_weak(
+        &self,
+        current: u32,
+        new: u32,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u32, u32> {
+        point("cas_weak");
+        if flip("cas_weak") {
+            // Weak exchanges are allowed to fail spuriously.
+            return Err(self.0.load(failure));
+        }
+        self.0.compare_exchange(current, new, success, failure)
+    }
+    pub fn fetch_update<F: FnMut(u32) -> Option<u32>>(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: F,
+    ) -> Result<u32, u32> {
+        // The algorithm of `core`.
+        let mut previous = self.load(fetch_order);
+        while let Some(next) = f(previous) {
+            match self.compare_exchange_weak(previous, next, set_order, fetch_order) {
+                x @ Ok(_) => return x,
+                Err(now) => previous = now,
+            }
+        }
+        Err(previous)
+    }
+}
diff --git a/src/slot.rs b/src/slot.rs
index d061459..28a9b28 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -6,6 +6,9 @@ use super::math::*;
 use super::sequencer::*;
 use super::signal::*;
 use super::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 extern crate alloc;
 use alloc::boxed::Box;
diff --git a/src/snoop.rs b/src/snoop.rs
index 6bad5f3..1dafdfe 100644
--- a/src/snoop.rs
+++ b/src/snoop.rs
@@ -4,7 +4,10 @@ use super::audionode::*;
 use super::buffer::*;
 use super::signal::*;
 use super::*;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::{channel, Receiver, Sender};
 use numeric_array::*;
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::{channel, Receiver, Sender};
 extern crate alloc;
 use alloc::vec;
diff --git a/src/vertex.rs b/src/vertex.rs
index d455293..38a6c97 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -6,6 +6,9 @@ use super::math::*;
 use super::net::*;
 use super::realnet::*;
 use super::sequencer::Fade;
+#[cfg(fundsp_sim)]
+use crate::sim::mpsc::Sender;
+#[cfg(not(fundsp_sim))]
 use thingbuf::mpsc::Sender;
 extern crate alloc;
 use alloc::boxed::Box;
diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..9c3f59a 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -119,6 +119,9 @@ impl Wavetable {
                 })
             });
         }
+        // Threads may race to initialize the global tables.
+        #[cfg(fundsp_sim)]
+        crate::sim::point("wavetable");
         Wavetable { table }
     }
 
-- 
2.43.0


From 8a79cab3b472f7c1c581fe750bf1678a65eb7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 02/35] fix: DummyUnit::process silences the whole block

Only the first simd_items(size) samples were cleared, so Net::fade_in mixed
whatever was left in the vertex output buffer into the rest of each block.
---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..3177c04 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_f32_mut(channel)[0..size].fill(0.0);
         }
     }
 
-- 
2.43.0


From c5f5cdd24c467a9a6b6758db95b41632a4cee268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:44 +0000
Subject: [PATCH 03/35] fix: Net::check does not panic on a stale source vertex
 shortcut

The shortcut is recomputed before the network is run, so after an edit
(such as removing a node) it may refer to a vertex that has moved.
---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index e832c42..11047fd 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1028,6 +1028,10 @@ impl Net {
                     _ => (),
                 }
             }
+            // The source vertex shortcut is brought up to date together with the order.
+            if !self.is_ordered() {
+                continue;
+            }
             if let Some((source_node, source_port)) = self.vertex[index].source_vertex {
                 assert!(source_node < self.size());
                 assert!(source_node != index);
-- 
2.43.0


From 4e7073f0ba9cfafdf37bc2e476170c0094f3b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:17 +0000
Subject: [PATCH 04/35] fix: Net settings, resets and sample rate changes reach
 units being faded in

They were applied to the outgoing unit only, so after a crossfade the new unit
ran with the old setting or sample rate. Likewise allocation.
---
 src/net.rs    |  6 +++---
 src/vertex.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 11047fd..4dfaf02 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1324,7 +1324,7 @@ impl AudioUnit for Net {
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
-                vertex.unit.set_sample_rate(sample_rate as f64);
+                vertex.set_sample_rate(sample_rate as f64);
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
@@ -1340,7 +1340,7 @@ impl AudioUnit for Net {
 
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
-            vertex.unit.reset();
+            vertex.reset();
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
@@ -1366,7 +1366,7 @@ impl AudioUnit for Net {
             if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
         } else if let Address::Node(id) = setting.direction() {
             if let Some(index) = self.node_index.get(&id) {
-                self.vertex[*index].unit.set(setting.peel());
+                self.vertex[*index].set(setting.peel());
             }
         }
     }
diff --git a/src/vertex.rs b/src/vertex.rs
index 38a6c97..5fad3da 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -6,6 +6,7 @@ use super::math::*;
 use super::net::*;
 use super::realnet::*;
 use super::sequencer::Fade;
+use super::setting::*;
 #[cfg(fundsp_sim)]
 use crate::sim::mpsc::Sender;
 #[cfg(not(fundsp_sim))]
@@ -93,9 +94,32 @@ impl Vertex {
         self.tick_output.len()
     }
 
+    /// Iterate over the unit and the units we are fading into, if any.
+    fn units_mut(&mut self) -> impl Iterator<Item = &mut Box<dyn AudioUnit>> {
+        core::iter::once(&mut self.unit)
+            .chain(self.next.unit.as_mut())
+            .chain(self.latest.unit.as_mut())
+    }
+
     /// Preallocate everything.
     pub fn allocate(&mut self) {
-        self.unit.allocate();
+        self.units_mut().for_each(|unit| unit.allocate());
+    }
+
+    /// Reset all units.
+    pub fn reset(&mut self) {
+        self.units_mut().for_each(|unit| unit.reset());
+    }
+
+    /// Set the sample rate of all units.
+    pub fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.units_mut()
+            .for_each(|unit| unit.set_sample_rate(sample_rate));
+    }
+
+    /// Apply setting to all units.
+    pub fn set(&mut self, setting: Setting) {
+        self.units_mut().for_each(|unit| unit.set(setting.clone()));
     }
 
     /// Calculate source vertex and source port.
-- 
2.43.0


From 0dc09116b633a2f17c87bcf703435bfe65dcc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:42 +0000
Subject: [PATCH 05/35] fix: NetBackend applies every commit and setting in
 order

When several commits were waiting, all but the last were skipped: crossfades of
nodes introduced by a skipped commit were lost, settings were applied to the
network they preceded, and the original units of new nodes (which the frontend
only has clones of) never reached the backend.
---
 src/net.rs     | 13 -----------
 src/realnet.rs | 58 +++++++++++++++++++-------------------------------
 2 files changed, 22 insertions(+), 49 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 4dfaf02..c631cfa 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1295,19 +1295,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index 74c1ee1..c8f9eea 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -64,49 +64,35 @@ impl NetBackend {
 
     /// Handle changes made to the backend.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
+        // Messages are applied in the order in which they were sent.
+        // Versions must not be skipped: each may contain edits and units
+        // that the versions that follow it do not.
         #[allow(clippy::while_let_loop)]
         loop {
             match self.receiver.try_recv() {
-                Ok(message) => {
-                    match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
-                        }
-                        NetMessage::Setting(setting) => {
-                            self.net.set(setting);
-                        }
-                        NetMessage::Null => (),
+                Ok(message) => match message {
+                    NetMessage::Net(mut net) => {
+                        // Migrate existing nodes to the new network.
+                        self.net.migrate(&mut net);
+                        core::mem::swap(&mut net, &mut self.net);
+                        self.net.apply_edits(&self.sender);
+                        // Send the previous network back for deallocation.
+                        if self
+                            .sender
+                            .as_ref()
+                            .unwrap()
+                            .try_send(NetReturn::Net(net))
+                            .is_ok()
+                        {}
                     }
-                }
+                    NetMessage::Setting(setting) => {
+                        self.net.set(setting);
+                    }
+                    NetMessage::Null => (),
+                },
                 _ => break,
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From f293a3bbf62eab9e7fc3899748c8c7356383c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 06/35] fix: NetBackend forwards settings to its network

Settings addressed to a node of a backend that is itself a node of another
network were ignored.
---
 src/realnet.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/realnet.rs b/src/realnet.rs
index c8f9eea..e9987ca 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -125,6 +125,11 @@ impl AudioUnit for NetBackend {
         self.net.process_2(size, input, output, &self.sender);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.handle_messages();
+        self.net.set(setting);
+    }
+
     fn get_id(&self) -> u64 {
         self.net.get_id()
     }
-- 
2.43.0


From e33f5fcd7265ed37fe8ba82dfb3117030e86445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:45 +0000
Subject: [PATCH 07/35] fix: Net frontend keeps up with crossfades

After a crossfade was committed, the frontend kept its copy of the replaced
unit, so a later reset or sample rate change brought the old unit back.
A crossfade waiting for a commit did not get a sample rate change either.
---
 src/net.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index c631cfa..6ee6d01 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1153,6 +1153,12 @@ impl Net {
         // Send over the original nodes to the backend.
         // This is necessary if the nodes contain any backends, which cannot be cloned effectively.
         core::mem::swap(&mut net.vertex, &mut self.vertex);
+        // From now on, the frontend copies of crossfaded nodes are the new units.
+        for edit in net.edit_queue.iter() {
+            if let Some(unit) = &edit.unit {
+                self.vertex[edit.index].unit = unit.clone();
+            }
+        }
         // Preallocate all necessary memory.
         net.allocate();
         if let Some((sender, receiver)) = &mut self.front {
@@ -1318,6 +1324,11 @@ impl AudioUnit for Net {
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in self.edit_queue.iter_mut() {
+                if let Some(unit) = &mut edit.unit {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
-- 
2.43.0


From 1eadcb282e1d20e705bb645f70801e0069db8980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 08/35] fix: Net frontend remembers settings

A setting for a node that had not been committed yet was lost, and settings
were undone by a commit that followed a reset or a sample rate change.
---
 src/net.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 6ee6d01..bde06f4 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1361,8 +1361,14 @@ impl AudioUnit for Net {
 
     fn set(&mut self, setting: Setting) {
         if let Some((sender, _receiver)) = &mut self.front {
-            if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
-        } else if let Address::Node(id) = setting.direction() {
+            if sender
+                .try_send(NetMessage::Setting(setting.clone()))
+                .is_ok()
+            {}
+        }
+        // A frontend applies the setting to its own copy as well:
+        // the node may be new, or it may be sent over again by a later commit.
+        if let Address::Node(id) = setting.direction() {
             if let Some(index) = self.node_index.get(&id) {
                 self.vertex[*index].set(setting.peel());
             }
-- 
2.43.0


From af352354918d6b19cf53beaafe0069fe847e1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:04 +0000
Subject: [PATCH 09/35] fix: graph operators bring networks to the same sample
 rate

A unit combined with a Net that had been set to another sample rate stayed at
its own sample rate for good, since Net::set_sample_rate ignores the current rate.
---
 src/net.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index bde06f4..a03fadb 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1177,6 +1177,17 @@ impl Net {
         self.revision += 1;
     }
 
+    /// Make sure this network and `other` have the same sample rate before they are combined.
+    /// A network with a backend keeps its sample rate; otherwise, a sample rate
+    /// that has been set takes precedence over the default sample rate.
+    fn resolve_sample_rate(&mut self, other: &mut Net) {
+        if other.has_backend() || (!self.has_backend() && self.sample_rate == DEFAULT_SR as f32) {
+            self.set_sample_rate(other.sample_rate as f64);
+        } else {
+            other.set_sample_rate(self.sample_rate as f64);
+        }
+    }
+
     /// Resolve new frontend for a binary combination.
     fn resolve_frontend(&mut self, other: &mut Net) {
         if self.has_backend() && other.has_backend() {
@@ -1469,6 +1480,7 @@ impl Net {
                 net2.inputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
@@ -1525,6 +1537,7 @@ impl Net {
 
     /// Given nets `net1` and `net2`, create and return net `net1 | net2`.
     pub fn stack(mut net1: Net, mut net2: Net) -> Net {
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
@@ -1597,6 +1610,7 @@ impl Net {
                 net2.outputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
@@ -1704,6 +1718,7 @@ impl Net {
                 net2.outputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
@@ -1779,6 +1794,7 @@ impl Net {
                 net2.inputs()
             );
         }
+        net1.resolve_sample_rate(&mut net2);
         net2.disambiguate_ids(&net1);
         let offset = net1.vertex.len();
         net1.vertex.append(&mut net2.vertex);
-- 
2.43.0


From ef1b032c90e2a0861f180fd6fea57705cf7a6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:31 +0000
Subject: [PATCH 10/35] fix: Sequencer fades of events that start in mid-block

The fade functions indexed the output buffer with indices relative to the
block, whereas the buffer that has been rendered begins at the start of
the event.
---
 src/sequencer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 2b33a15..8b760f8 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -136,6 +136,8 @@ fn fade_in(
         } else {
             round((fade_end_time - time) / sample_duration) as usize
         };
+        // The output buffer begins at the start index.
+        let fade_end_i = clamp(start_index, end_index, fade_end_i) - start_index;
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -170,7 +172,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -184,6 +186,7 @@ fn fade_out(
         } else {
             round((fade_start_time - time) / sample_duration) as usize
         };
+        let fade_i = clamp(start_index, end_index, fade_i);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -194,7 +197,10 @@ fn fade_out(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)
+                        [fade_i - start_index..end_index - start_index]
+                        .iter_mut()
+                    {
                         *x *= sine_ease(1.0 - fade);
                         fade += fade_d;
                     }
@@ -203,7 +209,10 @@ fn fade_out(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)
+                        [fade_i - start_index..end_index - start_index]
+                        .iter_mut()
+                    {
                         *x *= smooth5(1.0 - fade);
                         fade += fade_d;
                     }
-- 
2.43.0


From 38aa5d0b366eefcfda7c3a18da4bd5c91da02f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:34 +0000
Subject: [PATCH 11/35] fix: SequencerBackend resets before applying later
 messages

A reset sent by the frontend drained the messages that came after it
and then reset them away.
---
 src/realseq.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 3228478..7f9a7a9 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -66,7 +66,7 @@ impl SequencerBackend {
         while let Ok(message) = self.receiver.try_recv() {
             match message {
                 Message::Reset => {
-                    self.reset();
+                    self.reset_sequencer();
                 }
                 Message::Push(event) => {
                     self.sequencer.push_event(event);
@@ -85,6 +85,22 @@ impl SequencerBackend {
         }
     }
 
+    /// Reset the sequencer, sending back events that will not be replayed.
+    fn reset_sequencer(&mut self) {
+        if !self.sequencer.replay_events() {
+            while let Some(event) = self.sequencer.get_past_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_ready_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_active_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+        }
+        self.sequencer.reset();
+    }
+
     #[inline]
     fn send_back_past(&mut self) {
         while let Some(event) = self.sequencer.get_past_event() {
@@ -104,18 +120,7 @@ impl AudioUnit for SequencerBackend {
 
     fn reset(&mut self) {
         self.handle_messages();
-        if !self.sequencer.replay_events() {
-            while let Some(event) = self.sequencer.get_past_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_ready_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_active_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-        }
-        self.sequencer.reset();
+        self.reset_sequencer();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-- 
2.43.0


From 30a800661c3ca6730c29976325b9fff2b910b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:47 +0000
Subject: [PATCH 12/35] fix: setting listener applies settings to the node it
 wraps

Received settings were given to the listener, which ignored them.
---
 src/setting.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 8cf225d..5bc643e 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -278,7 +278,7 @@ impl<X: AudioNode> SettingListener<X> {
     }
     fn receive_settings(&mut self) {
         while let Result::Ok(setting) = self.rv.try_recv() {
-            self.set(setting);
+            self.x.set(setting);
         }
     }
 }
@@ -309,6 +309,11 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.receive_settings();
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
@@ -317,4 +322,8 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.receive_settings();
         self.x.route(input, frequency)
     }
+
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
 }
-- 
2.43.0


From 0351b4aacb0986e38ec677c04f66dfda93e126a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:59 +0000
Subject: [PATCH 13/35] fix: Slot plays new units at the sample rate of the
 slot

Units given to Slot::set kept the sample rate they came with, and were
not allocated before they were sent to the audio thread.
---
 src/slot.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index 28a9b28..63271d5 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -4,6 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
+use super::shared::*;
 use super::signal::*;
 use super::*;
 #[cfg(fundsp_sim)]
@@ -20,7 +21,8 @@ enum SlotMessage {
     #[default]
     Nothing,
     /// Update unit using fade shape and fade time (in seconds).
-    Update(Fade, f64, Box<dyn AudioUnit>),
+    /// The last field is the sample rate of the unit.
+    Update(Fade, f64, Box<dyn AudioUnit>, f32),
     /// Return a unit for deallocation.
     #[allow(dead_code)]
     Return(Box<dyn AudioUnit>),
@@ -30,6 +32,8 @@ enum SlotMessage {
 pub struct Slot {
     inputs: usize,
     outputs: usize,
+    /// Sample rate of the backend.
+    sample_rate: Shared,
     receiver: Receiver<SlotMessage>,
     sender: Sender<SlotMessage>,
 }
@@ -42,18 +46,22 @@ impl Slot {
         let (sender_b, receiver_b) = channel(1024);
         let inputs = initial_unit.inputs();
         let outputs = initial_unit.outputs();
+        let shared_rate = Shared::new(DEFAULT_SR as f32);
         let slot = Slot {
             inputs,
             outputs,
+            sample_rate: shared_rate.clone(),
             receiver: receiver_a,
             sender: sender_b,
         };
         initial_unit.set_sample_rate(DEFAULT_SR);
+        initial_unit.allocate();
         #[allow(clippy::unnecessary_cast)]
         let backend = SlotBackend {
             inputs,
             outputs,
             sample_rate: DEFAULT_SR,
+            shared_rate,
             current: initial_unit,
             next: None,
             fade: Fade::Smooth,
@@ -72,12 +80,16 @@ impl Slot {
 
     /// Set the unit. The current unit will be faded out and the new unit will be faded in
     /// simultaneously.
-    pub fn set(&mut self, fade: Fade, fade_time: f64, unit: Box<dyn AudioUnit>) {
+    pub fn set(&mut self, fade: Fade, fade_time: f64, mut unit: Box<dyn AudioUnit>) {
         assert_eq!(self.inputs, unit.inputs());
         assert_eq!(self.outputs, unit.outputs());
         // Deallocate units that were sent back.
         while self.receiver.try_recv().is_ok() {}
-        let message = SlotMessage::Update(fade, fade_time, unit);
+        // Make sure the sample rate of the unit matches that of the backend.
+        let sample_rate = self.sample_rate.value();
+        unit.set_sample_rate(sample_rate as f64);
+        unit.allocate();
+        let message = SlotMessage::Update(fade, fade_time, unit, sample_rate);
         if self.sender.try_send(message).is_ok() {}
     }
 
@@ -96,6 +108,8 @@ pub struct SlotBackend {
     inputs: usize,
     outputs: usize,
     sample_rate: f64,
+    /// Tells the sample rate to the frontend.
+    shared_rate: Shared,
     current: Box<dyn AudioUnit>,
     next: Option<Box<dyn AudioUnit>>,
     fade: Fade,
@@ -118,6 +132,7 @@ impl Clone for SlotBackend {
             inputs: self.inputs,
             outputs: self.outputs,
             sample_rate: self.sample_rate,
+            shared_rate: Shared::new(self.sample_rate as f32),
             current: self.current.clone(),
             next: self.next.clone(),
             fade: self.fade.clone(),
@@ -138,7 +153,11 @@ impl SlotBackend {
     /// Handle updates.
     fn handle_messages(&mut self) {
         while let Ok(message) = self.receiver.try_recv() {
-            if let SlotMessage::Update(fade, fade_time, unit) = message {
+            if let SlotMessage::Update(fade, fade_time, mut unit, sample_rate) = message {
+                if sample_rate != self.sample_rate as f32 {
+                    // The sample rate was changed after the unit was sent.
+                    unit.set_sample_rate(self.sample_rate);
+                }
                 if self.next.is_none() {
                     self.next = Some(unit);
                     self.fade_phase = 0.0;
@@ -188,6 +207,7 @@ impl AudioUnit for SlotBackend {
     #[allow(clippy::unnecessary_cast)]
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_rate = sample_rate;
+        self.shared_rate.set_value(sample_rate as f32);
         self.current.set_sample_rate(sample_rate);
         if let Some(next) = self.next.as_deref_mut() {
             next.set_sample_rate(sample_rate);
-- 
2.43.0


From e122030f7ed31340cac8f81f7f4a1b168eb251cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:34 +0000
Subject: [PATCH 14/35] fix: WAV writers report errors in writing the last of
 the data

---
 src/write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b3bbe..54a4535 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -72,7 +72,8 @@ impl Wave {
                 write16(&mut writer, (sample as i16) as u16)?;
             }
         }
-        std::io::Result::Ok(())
+        // Errors are lost if the buffer is dropped with data in it.
+        writer.flush()
     }
 
     /// Write the wave as a 32-bit float WAV to a buffer.
@@ -94,7 +95,7 @@ impl Wave {
                 writer.write_all(&sample.to_le_bytes())?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Save the wave as a 16-bit WAV file.
-- 
2.43.0


From b914977a94b2fd418fa8b2ee7cc0b124e07466c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:35 +0000
Subject: [PATCH 15/35] fix: Wave loading reports read errors in the middle of
 the source

---
 src/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/read.rs b/src/read.rs
index 6dd35e1..90a6c8f 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -2,7 +2,7 @@
 
 use super::wave::*;
 use std::fs::File;
-use std::io::Cursor;
+use std::io::{Cursor, ErrorKind};
 use std::path::Path;
 extern crate alloc;
 use alloc::boxed::Box;
@@ -112,6 +112,10 @@ impl Wave {
                 loop {
                     let packet = match reader.next_packet() {
                         Ok(packet) => packet,
+                        // A failure to read the source is not the end of the stream.
+                        Err(Error::IoError(err)) if err.kind() != ErrorKind::UnexpectedEof => {
+                            return Err(Error::IoError(err));
+                        }
                         Err(err) => {
                             if let Some(wave_output) = wave {
                                 return Ok(wave_output);
-- 
2.43.0


From f52a1e29c13dc70cc234582f004c122cf705e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 16/35] fix: Sequencer::allocate allocates the units of its
 events

---
 src/sequencer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 8b760f8..4a54a10 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -821,6 +821,17 @@ impl AudioUnit for Sequencer {
         self.ready.reserve(DEFAULT_CAPACITY);
         self.past.reserve(DEFAULT_CAPACITY);
         self.edit_map.reserve(DEFAULT_CAPACITY);
+        // Units that were cloned with the sequencer may have lost their preallocated memory.
+        let mut ready = core::mem::take(&mut self.ready).into_vec();
+        for event in self
+            .active
+            .iter_mut()
+            .chain(self.past.iter_mut())
+            .chain(ready.iter_mut())
+        {
+            event.unit.allocate();
+        }
+        self.ready = ready.into();
     }
 }
 
-- 
2.43.0


From 4dcafb5909de65d30143ced66ebf6b629bca257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:27 +0000
Subject: [PATCH 17/35] fix: WaveSynth starts from the phase that reset returns
 it to

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 9c3f59a..9e22521 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -279,7 +279,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut synth = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -288,7 +288,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        synth.reset();
+        synth
     }
 }
 
-- 
2.43.0


From cd8ee3b947f9423b1dc26d9045c55e1d45053194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:27 +0000
Subject: [PATCH 18/35] fix: Mls resets to the state it started from

---
 src/noise.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..fb68b17 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,16 +100,19 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    /// Initial state when there is no seed or hash.
+    initial: MlsState,
     seed: Option<u64>,
-    hash: u64,
+    hash: Option<u64>,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
+            initial: mls.clone(),
             mls,
             seed: None,
-            hash: 0,
+            hash: None,
         }
     }
 }
@@ -120,8 +123,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed.or(self.hash) {
+            Some(hash) => MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32),
+            None => self.initial.clone(),
+        };
     }
 
     #[inline]
@@ -138,7 +143,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.hash = Some(hash);
         self.reset();
     }
 
-- 
2.43.0


From 51fa517aefcc1d80bc1c21be4d2bab28ee6205cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:27 +0000
Subject: [PATCH 19/35] fix: Adaptive starts from the state that reset returns
 it to

---
 src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..0688da8 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -181,6 +181,7 @@ impl<S: Shape> Adaptive<S> {
             state: 0.0,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
+        adaptive.reset();
         adaptive
     }
 }
-- 
2.43.0


From b6250a01c2ae211042fc1e813b6b552779d9fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:27 +0000
Subject: [PATCH 20/35] fix: Limiter keeps its state if the sample rate stays
 the same, and resets its follower

---
 src/dynamics.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index d925c8d..27536f6 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -183,19 +183,22 @@ where
     type Outputs = N;
 
     fn reset(&mut self) {
-        self.set_sample_rate(self.sample_rate);
+        self.index = 0;
+        self.follower.reset();
+        self.reducer.clear();
+        self.buffer.clear();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.index = 0;
-        self.sample_rate = sample_rate;
-        let length = Self::buffer_length(sample_rate, self.lookahead);
-        if length != self.reducer.length {
-            self.reducer = Self::new_buffer(sample_rate, self.lookahead);
+        if self.sample_rate != sample_rate {
+            self.sample_rate = sample_rate;
+            let length = Self::buffer_length(sample_rate, self.lookahead);
+            if length != self.reducer.length {
+                self.reducer = Self::new_buffer(sample_rate, self.lookahead);
+            }
+            self.follower.set_sample_rate(sample_rate);
+            self.reset();
         }
-        self.follower.set_sample_rate(sample_rate);
-        self.reducer.clear();
-        self.buffer.clear();
     }
 
     #[inline]
-- 
2.43.0


From 642c9deadb321510da0517ab895ccc8e14e8a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:27 +0000
Subject: [PATCH 21/35] fix: Limiter::allocate reserves the whole buffer

---
 src/dynamics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 27536f6..5d40679 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -238,7 +238,7 @@ where
     fn allocate(&mut self) {
         if self.buffer.capacity() < self.reducer.length() {
             self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
+                .reserve(self.reducer.length() - self.buffer.len());
         }
     }
 }
-- 
2.43.0


From de6b7c7a7a8a1a1366d0464a70fb5c6daf95f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:27 +0000
Subject: [PATCH 22/35] fix: Reverb resets and sets the sample rate of its
 predelay stage

---
 src/reverb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From 24f19c97a0a0f7d9465d7786e32b03b733fee0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:47 +0000
Subject: [PATCH 23/35] fix: adsr_live keeps its state to itself, so that
 clones are independent and reset works

---
 src/adsr.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..1a1e50d 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{clamp01, delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -26,27 +26,25 @@ pub fn adsr_live(
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
     let neg1 = -1.0;
     let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    let mut attack_start = zero;
+    let mut release_start = neg1;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time == zero {
+            // The envelope is starting from the beginning.
+            attack_start = zero;
+            release_start = neg1;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if release_start >= zero && control > zero {
+            attack_start = time;
+            release_start = neg1;
+        } else if release_start < zero && control <= zero {
+            release_start = time;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if release_start < zero {
             ads_value
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
     })
 }
-- 
2.43.0


From 9c4757db7c0ab659cd195eb55bf877603e6e55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 24/35] fix: a Net inside another keeps the pseudorandom phase
 hash it was given

---
 src/net.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index a03fadb..626919f 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -836,13 +836,18 @@ impl Net {
 
     /// Compute and store node order for this network.
     fn determine_order(&mut self) {
+        self.update_order();
+        // Update net hash. We have designed the hash to depend on vertices but not edges.
+        let hash = self.ping(true, AttoHash::new(ID));
+        self.ping(false, hash);
+    }
+
+    /// Determine node order without updating the net hash.
+    fn update_order(&mut self) {
         // Update source vertex shortcut.
         for j in 0..self.vertex.len() {
             self.vertex[j].update_source_vertex();
         }
-        // Update net hash. We have designed the hash to depend on vertices but not edges.
-        let hash = self.ping(true, AttoHash::new(ID));
-        self.ping(false, hash);
         let mut order = match self.order.take() {
             Some(v) => v,
             None => Vec::with_capacity(self.vertex.len()),
@@ -1391,6 +1396,10 @@ impl AudioUnit for Net {
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        if !probe && !self.is_ordered() {
+            // Determine order now, as doing it later would replace the hash that is being set.
+            self.update_order();
+        }
         let mut hash = hash.hash(ID);
         for x in self.vertex.iter_mut() {
             hash = x.unit.ping(probe, hash);
-- 
2.43.0


From 2aef1f036c28cb62bba7675633c7514dd565c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:43 +0000
Subject: [PATCH 25/35] fix: Feedback2::allocate allocates both of its nodes

---
 src/feedback.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..de104df 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -267,6 +267,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From 5b668c7f27b1f6bfd893ed7a229762c36fe51a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:44 +0000
Subject: [PATCH 26/35] fix: Crush rounds ties the same way in tick and process

---
 src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 0688da8..b9da1e6 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -128,7 +128,8 @@ pub struct Crush(pub f32);
 impl Shape for Crush {
     #[inline]
     fn shape(&mut self, input: f32) -> f32 {
-        (input * self.0).round() / self.0
+        // Round ties to even like the SIMD version does.
+        libm::rintf(input * self.0) / self.0
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-- 
2.43.0


From 8008a7d1fc81cf4e48f7f5de94cf3973c7d5282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:01 +0000
Subject: [PATCH 27/35] fix: Wave renders without latency at the sample rate it
 renders at

---
 src/wave.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..585c91e 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -477,6 +477,8 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // Latency depends on the sample rate.
+        node.set_sample_rate(sample_rate);
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -572,6 +574,8 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // Latency depends on the sample rate.
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From f0f1e626c9953e1c2ecf5a6da4c4a5ad25166911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 28/35] fix: Sequencer::backend hands the original units over
 to the backend

The frontend kept the originals and the backend got clones, so that the
backend of a live structure that was pushed as an event before the call
lost its connection to its frontend. Net::backend does it the same way.
---
 src/sequencer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 4a54a10..6e62bc3 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -550,6 +550,11 @@ impl Sequencer {
         let (sender_a, receiver_a) = channel(2048);
         let (sender_b, receiver_b) = channel(2048);
         let mut sequencer = self.clone();
+        // Send over the original units to the backend.
+        // This is necessary if the units contain any backends, which cannot be cloned effectively.
+        core::mem::swap(&mut sequencer.active, &mut self.active);
+        core::mem::swap(&mut sequencer.ready, &mut self.ready);
+        core::mem::swap(&mut sequencer.past, &mut self.past);
         sequencer.allocate();
         self.front = Some((sender_a, receiver_b));
         SequencerBackend::new(sender_b, receiver_a, sequencer)
-- 
2.43.0


From 8a5c0708ac2a4366b5183785af29de3e1f05bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:04 +0000
Subject: [PATCH 29/35] fix: TapLinear delay line leaves room for a vector of
 new samples

TapLinear::process writes a whole vector of input before it reads the taps,
so a delay line without room for it returned new samples in place of the
oldest ones when the tap was near the maximum delay.
---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From 59f679a2c828d2f8090831f7853ea81c4006ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:33 +0000
Subject: [PATCH 30/35] fix: adsr_live stays silent until its control is
 positive for the first time

With the control at zero from the beginning, the envelope entered its release
at time zero while the attack was running, and a note nobody had played was
heard.
---
 src/adsr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 1a1e50d..6936513 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -28,18 +28,25 @@ pub fn adsr_live(
     let zero = 0.0;
     let mut attack_start = zero;
     let mut release_start = neg1;
+    // There is no sound before the first attack.
+    let mut started = false;
     envelope2(move |time, control| {
         if time == zero {
             // The envelope is starting from the beginning.
             attack_start = zero;
             release_start = neg1;
+            started = false;
         }
-        if release_start >= zero && control > zero {
+        if control > zero && (!started || release_start >= zero) {
             attack_start = time;
             release_start = neg1;
-        } else if release_start < zero && control <= zero {
+            started = true;
+        } else if started && release_start < zero && control <= zero {
             release_start = time;
         }
+        if !started {
+            return zero;
+        }
         let ads_value = ads(attack, decay, sustain, time - attack_start);
         if release_start < zero {
             ads_value
-- 
2.43.0


From 9ec86061d6448d011c6e13fbc03b1de532defc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:33 +0000
Subject: [PATCH 31/35] fix: Limiter takes the outgoing sample into account

The amplitude of the sample that leaves the look-ahead buffer was overwritten
before the peak was taken. The follower jumps to the peak at the first sample
after the buffer is full, so a peak in the very first sample passed unlimited.
---
 src/dynamics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 5d40679..8499550 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -204,6 +204,8 @@ where
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
         let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, abs(x)));
+        // The peak includes the sample that is about to leave the buffer.
+        let peak = max(self.reducer.total(), amplitude);
         self.reducer.set(self.index, amplitude);
         if self.buffer.len() < self.reducer.length() {
             // We are filling up the initial buffer.
@@ -218,8 +220,7 @@ where
             let output = self.buffer[self.index].clone();
             self.buffer[self.index] = input.clone();
             // Leave some headroom.
-            self.follower
-                .filter_mono(max(1.0, self.reducer.total() * 1.10));
+            self.follower.filter_mono(max(1.0, peak * 1.10));
             self.advance();
             let limit = self.follower.value();
             output * Frame::splat(1.0 / limit)
-- 
2.43.0


From 279f793e62210e8c7b21bdacd6443714506aecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:56 +0000
Subject: [PATCH 32/35] fix: set_gain of bell and shelf filters takes effect

---
 src/svf.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..29d8989 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -593,6 +593,10 @@ impl<F: Real> SvfMode<F> for BellMode<F> {
         *coefs = SvfCoefs::bell(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -647,6 +651,10 @@ impl<F: Real> SvfMode<F> for LowshelfMode<F> {
         *coefs = SvfCoefs::lowshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -704,6 +712,10 @@ impl<F: Real> SvfMode<F> for HighshelfMode<F> {
         *coefs = SvfCoefs::highshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
-- 
2.43.0


From 26ec745ed05f951cd67945da981e222cee059f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:56 +0000
Subject: [PATCH 33/35] fix: resonator_hz responds to its settings

---
 src/biquad.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..d3174ca 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -366,6 +366,16 @@ impl<F: Real, N: Size<f32>> AudioNode for Resonator<F, N> {
         self.biquad.tick(&[input[0]].into())
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.parameter() {
+            Parameter::Center(center) => self.set_center_q(F::from_f32(*center), self.q),
+            Parameter::CenterQ(center, q) => {
+                self.set_center_q(F::from_f32(*center), F::from_f32(*q))
+            }
+            _ => (),
+        }
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = SignalFrame::new(self.outputs());
         output.set(
-- 
2.43.0


From 23294e468e4e66f41351f4d7c16ec50eb7855ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:56 +0000
Subject: [PATCH 34/35] fix: the coefficient of allnest_c can be set

---
 README.md      | 2 +-
 src/setting.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/README.md b/README.md
index bd7d836..92bfdde 100644
--- a/README.md
+++ b/README.md
@@ -946,7 +946,7 @@ The following table summarizes the available settings.
 | Opcode            | `Setting` Constructor Call |
 | ----------------- | --------------------------------- |
 | `afollow`         | `attack_release` to set attack and release times in seconds |
-| `allnest_c`       | `delay` in samples at DC |
+| `allnest_c`       | `coefficient` to set the feedforward coefficient |
 | `allpass_hz`      | `center_q` |
 | `allpole_delay`   | `delay` in samples at DC |
 | `bandpass_hz`     | `center_q` |
diff --git a/src/setting.rs b/src/setting.rs
index 5bc643e..aecca5c 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -109,6 +109,13 @@ impl Setting {
             address: ArrayVec::new(),
         }
     }
+    /// Create setting for a filter coefficient.
+    pub fn coefficient(coefficient: f32) -> Self {
+        Self {
+            parameter: Parameter::Coefficient(coefficient),
+            address: ArrayVec::new(),
+        }
+    }
     /// Create setting for biquad filter coefficients.
     pub fn biquad(a1: f32, a2: f32, b0: f32, b1: f32, b2: f32) -> Self {
         Self {
-- 
2.43.0


From f1a600b127e62119f16df51be9bda105af73bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:00 +0000
Subject: [PATCH 35/35] fix: report the latency of generators

Routing returned early when there were no inputs, so generators never had a
latency and Wave::render_latency never discarded any pre-delay.
---
 src/signal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..677b4ef 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,7 +176,7 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
-        if input.is_empty() {
+        if input.is_empty() && !matches!(self, Routing::Generator(_)) {
             return output;
         }
         match self {
-- 
2.43.0

