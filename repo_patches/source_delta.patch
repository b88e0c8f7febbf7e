From a28a0bad9c2339741d897b273227eeeffea996ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:23 +0000
Subject: [PATCH 01/39] fix: report the unknown port in LinkError::UnknownPort

`PortGraph::link_ports(a, b)` with an existing `a` and an unknown `b` blamed `a`.
---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..1336039 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -763,7 +763,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From 16eec290f0870a3cf051838e2ca018b0462e2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:07 +0000
Subject: [PATCH 02/39] fix: reject out-of-range indices in BitField::new

`NodeIndex::new`, `PortIndex::new` and `PortOffset::new` are documented to panic
for an index above the maximum, but values using the flag bit were accepted:
`PortOffset::<u16>::new_incoming(0x8000)` was an outgoing offset and
`NodeIndex::<u32>::new((1 << 31) + 1)` aliased node 1.
---
 src/index.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/index.rs b/src/index.rs
index ff3d9fc..71226e2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -458,6 +458,7 @@ impl<U: Unsigned> BitField<U> {
     /// Create a new bit field with the given index and bit flag.
     #[inline(always)]
     fn new(index: usize, bit_flag: bool) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let ret = Self(u);
         if bit_flag {
-- 
2.43.0


From 2ff78347f2ec6ee883802354ac9d862baae96624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 03/39] fix: enforce the port count limits uniformly

`add_node` silently truncated counts above u16::MAX when the port offset type
is wider than 16 bits, `set_num_ports` accepted counts whose offsets cannot be
represented, and it panicked for any total above 32768 because the power-of-two
capacity overflowed u16.
---
 src/portgraph.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 1336039..52c4aae 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -106,6 +106,24 @@ impl<N: Unsigned, P: Unsigned, PO: Unsigned> PortGraph<N, P, PO> {
 }
 
 impl<PO: Unsigned> PortGraph<u32, u32, PO> {
+    /// Panics if a node cannot have this number of ports.
+    #[inline]
+    fn check_port_counts(incoming: usize, outgoing: usize) {
+        let max_offset = PortOffset::<PO>::max_offset();
+        assert!(
+            incoming <= max_offset.min(NodeMeta::MAX_INCOMING),
+            "Incoming port count exceeds maximum."
+        );
+        assert!(
+            outgoing <= max_offset.min(NodeMeta::MAX_OUTGOING),
+            "Outgoing port count exceeds maximum."
+        );
+        assert!(
+            incoming + outgoing <= NodeMeta::MAX_CAPACITY,
+            "Total port count exceeds maximum."
+        );
+    }
+
     #[inline]
     fn alloc_node(&mut self) -> NodeIndex {
         match self.node_free.to_option() {
@@ -451,14 +469,7 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
 impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn add_node(&mut self, incoming: usize, outgoing: usize) -> NodeIndex {
-        assert!(
-            incoming <= PortOffset::<PO>::max_offset(),
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= PortOffset::<PO>::max_offset(),
-            "Outgoing port count exceeds maximum."
-        );
+        Self::check_port_counts(incoming, outgoing);
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -516,14 +527,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
-            "Outgoing port count exceeds maximum."
-        );
+        Self::check_port_counts(incoming, outgoing);
 
         let new_total = incoming + outgoing;
 
@@ -558,7 +562,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = new_total
+            .next_power_of_two()
+            .min(NodeMeta::MAX_CAPACITY);
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
@@ -824,6 +830,8 @@ impl NodeMeta {
     const MAX_INCOMING: usize = u16::MAX as usize - 1;
     /// The maximum number of outgoing ports for a node.
     const MAX_OUTGOING: usize = u16::MAX as usize;
+    /// The maximum number of port slots allocated to a node.
+    const MAX_CAPACITY: usize = u16::MAX as usize;
 
     #[inline]
     pub fn new(first_port: PortIndex, incoming: u16, outgoing: u16, capacity: u16) -> Self {
-- 
2.43.0


From 6e790054e1a0db26250dadd789794e79fc42fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:37 +0000
Subject: [PATCH 04/39] fix: do not keep a port slab for a node resized to zero
 ports

`set_num_ports(node, 0, 0)` allocated a one-slot slab. `compact_ports` does not
update nodes without ports, so the stale slab could later be freed while in use
by another node.
---
 src/portgraph.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 52c4aae..a04d775 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -562,9 +562,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total
-            .next_power_of_two()
-            .min(NodeMeta::MAX_CAPACITY);
+        let target_capacity = match new_total {
+            0 => 0,
+            _ => new_total.next_power_of_two().min(NodeMeta::MAX_CAPACITY),
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From 0161059a0d6333332426b9ffbfc60d584fa62c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:57 +0000
Subject: [PATCH 05/39] fix: keep the free node list consistent in
 PortGraph::swap_nodes

Swapping with a free slot at the head of the free list left `node_free`
pointing at the occupied slot, so the next `add_node` panicked. Swapping two
free slots corrupted the list.
---
 src/portgraph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index a04d775..1e0aad5 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -623,6 +623,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -640,8 +643,11 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // Update the free node linked list, only if we swapping empty and
         // non-empty spaces.
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
-            if let Some(prev) = entry.prev.to_option() {
-                self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            match entry.prev.to_option() {
+                Some(prev) => {
+                    self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into()
+                }
+                None => self.node_free = new_node.into(),
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From b00a5b5c57fdbb6880448e093b7cd35ab9a2c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 06/39] fix: validate the ports in MultiPortGraph::link_ports
 before allocating subports

---
 src/multiportgraph.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..dd9946e 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -306,6 +306,21 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        // Check the ports before allocating any subport, so that a failed call
+        // leaves the graph unchanged.
+        for port in [port_a, port_b] {
+            if !self.contains_port(port) {
+                return Err(LinkError::UnknownPort { port });
+            }
+        }
+        let dir = self.port_direction(port_a).unwrap();
+        if self.port_direction(port_b) == Some(dir) {
+            return Err(LinkError::IncompatibleDirections {
+                port_a,
+                port_b,
+                dir,
+            });
+        }
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
-- 
2.43.0


From 91dc6b83297eda5758b7b0b8d7cc21a281e73bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 07/39] fix: return the linked subport from
 MultiPortGraph::unlink_port

---
 src/multiportgraph.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index dd9946e..0169f95 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -333,9 +333,12 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .graph
                 .port_link(port)
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
-            self.remove_copy_node(port, link)
+            let linked = self.port_link(port);
+            self.remove_copy_node(port, link);
+            linked
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
@@ -385,20 +388,11 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
 /// Internal helper methods
 impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
     /// Remove an internal copy node.
-    ///
-    /// Returns one of the links, if the node was connected
-    fn remove_copy_node(
-        &mut self,
-        main_node_port: PortIndex,
-        copy_port: PortIndex,
-    ) -> Option<SubportIndex> {
+    fn remove_copy_node(&mut self, main_node_port: PortIndex, copy_port: PortIndex) {
         let copy_node = self.graph.port_node(copy_port).unwrap();
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
-        let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
-
         let mut subports = self.graph._ports(copy_node, dir.reverse());
         self.multiport.set(copy_port, false);
         self.multiport.set(main_node_port, false);
@@ -407,8 +401,6 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         self.copy_node_count -= 1;
         self.subport_count -= subports.len();
         debug_assert!(subports.all(|port| !self.multiport.get(port.index())));
-
-        link
     }
 
     /// Returns a free multiport for the given port, along with its
-- 
2.43.0


From 12485a08b6c28c4d5789b6a324b926a9bfb8f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 08/39] fix: keep the multiport flags in step with the ports in
 MultiPortGraph::set_num_ports

---
 src/multiportgraph.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 0169f95..790df4c 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -227,7 +227,9 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
             match op {
                 PortOperation::Removed { old_link } => {
                     if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
+                        // Clear the flag before another port is moved here.
+                        self.multiport.set(port, false);
+                        dropped_ports.push(old_link.expect("Multiport node has no link"));
                     }
                 }
                 PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
@@ -236,8 +238,8 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         };
         self.graph
             .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
+        for old_link in dropped_ports {
+            self.remove_copy_node(old_link);
         }
     }
 
@@ -334,7 +336,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .port_link(port)
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
             let linked = self.port_link(port);
-            self.remove_copy_node(port, link);
+            self.multiport.set(port, false);
+            self.remove_copy_node(link);
             linked
         } else {
             let link = self.graph.unlink_port(port)?;
@@ -388,14 +391,15 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
 /// Internal helper methods
 impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
     /// Remove an internal copy node.
-    fn remove_copy_node(&mut self, main_node_port: PortIndex, copy_port: PortIndex) {
+    ///
+    /// The multiport flag of the main port must be cleared by the caller.
+    fn remove_copy_node(&mut self, copy_port: PortIndex) {
         let copy_node = self.graph.port_node(copy_port).unwrap();
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
         self.multiport.set(copy_port, false);
-        self.multiport.set(main_node_port, false);
         self.copy_node.set(copy_node, false);
         self.graph.remove_node(copy_node);
         self.copy_node_count -= 1;
-- 
2.43.0


From 57094b073a3a9385e816d7e74378cc76d0ca98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 09/39] fix: let the size hint of MultiPortGraph's PortLinks
 allow an unlinked port

---
 src/multiportgraph/iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph/iter.rs b/src/multiportgraph/iter.rs
index ccd58d2..a5d11ee 100644
--- a/src/multiportgraph/iter.rs
+++ b/src/multiportgraph/iter.rs
@@ -460,7 +460,8 @@ impl<PO: Unsigned> Iterator for PortLinks<'_, PO> {
                 if *empty {
                     (0, Some(0))
                 } else {
-                    (1, Some(1))
+                    // The port may be unlinked.
+                    (0, Some(1))
                 }
             }
             PortLinks::Multiport { subports, .. } => (0, Some(subports.len())),
-- 
2.43.0


From 9e96de4b087d6818cd5d8d151cd4cba56d2499e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 10/39] fix: reject attaching a node to itself in Hierarchy

---
 src/hierarchy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..0d741e5 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,6 +273,10 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
+        if parent == node {
+            return false;
+        }
+
         // When `node` does not have any children it can't contain `parent`.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-- 
2.43.0


From c7f308863e61b325753a8eebbbdbc8f342448d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 11/39] fix: let Hierarchy::rekey keep a node in place

---
 src/hierarchy.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 0d741e5..8c7cffa 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -470,14 +470,14 @@ impl Hierarchy {
     ///
     /// # Panics
     ///
-    /// Panics if the index `new` is not a root without any children.
+    /// Panics if `new` differs from `old` and is not a root without any children.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 65933139cdedce064a9023d84207fd5404406c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 12/39] fix: leave the map's own default behind in
 UnmanagedDenseMap::rekey

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..3838784 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,8 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let default = self.default.clone();
+            let val = mem::replace(self.get_mut(old), default);
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +174,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From 0dc91d9f22c6721b479f82411915ec432c4b1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 13/39] fix: let ensure_capacity of BitVec and HashSet maps
 reach the requested capacity

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..4165e53 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
-- 
2.43.0


From 7730084495d5e7f403b5ddf4b5877c2f34ce1d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 14/39] fix: FilteredGraph::link_count counts each link once

---
 src/view/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..31aafb2 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
-- 
2.43.0


From 8dde7ddf121a6c889d3daf01ae81c9cf32e74171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 15/39] fix: FilteredGraph::subport_link hides links to
 filtered-out nodes

---
 src/view/filter.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index 31aafb2..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From 20e68bc80c5dea843fa44b8147504792b0cbcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 16/39] fix: Boundary::internal_nodes follows all links of a
 port

---
 src/boundary.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 92c04a6..cd5aefd 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -305,20 +305,12 @@ impl Boundary {
         &self,
         graph: &'g impl LinkView,
     ) -> impl Iterator<Item = NodeIndex> + 'g {
-        // For every visited edge, we mark both ports as visited
-        let mut visited = BTreeSet::new();
+        let boundary_ports: HashSet<PortIndex> = self.port_indices().collect();
 
         // The set of nodes to traverse
         let mut nodes_to_process: BTreeSet<_> = self
             .port_indices()
-            .map(|p| {
-                let this_node = graph.port_node(p).unwrap();
-                if let Some(other_port) = graph.port_link(p) {
-                    visited.insert(other_port.into());
-                }
-                visited.insert(p);
-                this_node
-            })
+            .map(|p| graph.port_node(p).unwrap())
             .collect();
 
         if nodes_to_process.is_empty() {
@@ -326,15 +318,24 @@ impl Boundary {
             nodes_to_process = graph.nodes_iter().collect();
         }
 
+        // All the nodes that have ever been in `nodes_to_process`
+        let mut visited = nodes_to_process.clone();
+
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
-            // Traverse every unvisited edge in `node`
+            // Traverse every edge in `node` that is not in the boundary.
+            // Ports of a multigraph may have several of them.
             for p in graph.all_ports(node) {
-                if visited.insert(p) {
-                    // Visit it
-                    if let Some(other_port) = graph.port_link(p) {
-                        visited.insert(other_port.into());
-                        // Possibly a new node!
-                        let other_node = graph.port_node(other_port).unwrap();
+                if boundary_ports.contains(&p) {
+                    continue;
+                }
+                for (_, other_port) in graph.port_links(p) {
+                    let other_port: PortIndex = other_port.into();
+                    if boundary_ports.contains(&other_port) {
+                        continue;
+                    }
+                    let other_node = graph.port_node(other_port).unwrap();
+                    if visited.insert(other_node) {
+                        // A new node!
                         nodes_to_process.insert(other_node);
                     }
                 }
-- 
2.43.0


From e33841af01be8c0076ede63ae3de5dd8348db826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 17/39] fix: FlatRegion::is_empty without a root nor children

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..98efa7f 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        self.node_count() == 0
     }
 
     #[inline]
-- 
2.43.0


From f4b0264ec52684d502fddbe1f5d4e2f92a2189a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 18/39] fix: Region::clone keeps the root in the cache when the
 original is locked

---
 src/view/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..57ce16e 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -128,10 +128,10 @@ impl<G: PartialEq> PartialEq for Region<'_, G> {
 impl<G: Clone> Clone for Region<'_, G> {
     fn clone(&self) -> Self {
         // Clone the cache if it is not currently locked.
-        // Otherwise, create a new empty cache.
+        // Otherwise, create a new cache containing only the root, as in `Region::new`.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => HashMap::from([(self.region_root, false)]),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0


From 0d6fb8a86722f261f4d0fb850a83c81095188798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 19/39] fix: TopoSort waits for all links of a multigraph port

---
 src/algorithms/toposort.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index e2849f7..bf19f82 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -230,7 +230,7 @@ where
                 // This port must have not been visited yet. Otherwise, the node
                 // would have been already been reported as ready and added to
                 // the candidate list.
-                !self.visited_ports.get(p)
+                !self.visited_ports.get(p) && self.all_links_visited(p)
             } else if *self.visited_ports.get(p) {
                 true
             } else if self.graph.port_link(p).is_none() || self.ignore_port(node, p) {
@@ -243,6 +243,21 @@ where
         })
     }
 
+    /// Returns `true` if the ports on the other side of all the links of `port`
+    /// have been visited. Ports in a multigraph may have more than one link.
+    fn all_links_visited(&mut self, port: PortIndex) -> bool {
+        let graph = &self.graph;
+        let visited_ports = &self.visited_ports;
+        let port_filter = &mut self.port_filter;
+        graph.port_links(port).all(|(_, linked)| {
+            let linked: PortIndex = linked.into();
+            *visited_ports.get(linked)
+                && port_filter
+                    .as_mut()
+                    .map_or(true, |f| f(graph.port_node(linked).unwrap(), linked))
+        })
+    }
+
     /// Returns `true` if the node should be ignored.
     #[inline]
     fn ignore_node(&mut self, node: NodeIndex) -> bool {
@@ -291,7 +306,9 @@ where
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-                self.visited_ports.set(port, true);
+                if self.all_links_visited(port) {
+                    self.visited_ports.set(port, true);
+                }
             }
         }
 
-- 
2.43.0


From a4e556c497d4466d27c788e53d87991cbac338b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 20/39] fix: TopoSort does not reach nodes through filtered
 ports

---
 src/algorithms/toposort.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index bf19f82..39bb8f0 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -303,6 +303,9 @@ where
             for port in linked_ports {
                 let target = self.graph.port_node(port).unwrap();
 
+                if self.ignore_port(target, port) {
+                    continue;
+                }
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-- 
2.43.0


From c3264d659d2cef6cf41737a2c4d431bc280d2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 21/39] fix: TopoSort::add_sources accepts nodes without ports

---
 src/algorithms/toposort.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index 39bb8f0..93a69c9 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -1,7 +1,11 @@
 use crate::{Direction, LinkView, NodeIndex, PortIndex, SecondaryMap};
 use bitvec::prelude::BitVec;
 use smallvec::SmallVec;
-use std::{collections::VecDeque, fmt::Debug, iter::FusedIterator};
+use std::{
+    collections::{BTreeSet, VecDeque},
+    fmt::Debug,
+    iter::FusedIterator,
+};
 
 /// Returns an iterator over a [`LinkView`] in topological order.
 ///
@@ -118,6 +122,8 @@ pub struct TopoSort<'f, G, Map = BitVec> {
     /// as successors of nodes already have a canonical ordering due to ports.
     candidate_nodes: VecDeque<NodeIndex>,
     direction: Direction,
+    /// Nodes without any ports that have already been returned.
+    visited_isolated: BTreeSet<NodeIndex>,
     /// The number of nodes already returned from the iterator.
     /// This is used to calculate the upper bound for the iterator's `size_hint`.
     nodes_seen: usize,
@@ -174,6 +180,7 @@ where
             visited_ports,
             candidate_nodes,
             direction,
+            visited_isolated: BTreeSet::new(),
             nodes_seen: 0,
             node_filter,
             port_filter,
@@ -205,10 +212,11 @@ where
             if self.graph.num_ports(node, self.direction.reverse()) == 0 {
                 // If the node has no incoming ports, we check if it has been visited by looking at the outgoing ports.
                 new_candidate = !self.candidate_nodes.contains(&node)
+                    && !self.visited_isolated.contains(&node)
                     && self
                         .graph
                         .ports(node, self.direction)
-                        .any(|p| !self.visited_ports.get(p));
+                        .all(|p| !self.visited_ports.get(p));
             }
 
             if new_candidate {
@@ -287,6 +295,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let node = self.candidate_nodes.pop_front()?;
         let ports = self.graph.ports(node, self.direction).collect::<Vec<_>>();
+        if ports.is_empty() && self.graph.num_ports(node, self.direction.reverse()) == 0 {
+            self.visited_isolated.insert(node);
+        }
 
         for port in ports {
             self.visited_ports.set(port, true);
-- 
2.43.0


From e87b068215c2a89ac14f472e76ce6260681c32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 22/39] fix: dominators ignores predecessors that are not
 reachable from the entry

---
 src/algorithms/dominators.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..7316c09 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -137,7 +137,8 @@ where
     ) -> Self {
         // We traverse the graph in post order starting at the `entry` node.
         // We associate each node that we encounter with its index within the traversal.
-        let mut node_to_index = UnmanagedDenseMap::with_capacity(graph.node_capacity());
+        // Nodes that are not reachable from the entry have no index.
+        let mut node_to_index = UnmanagedDenseMap::with_default(usize::MAX);
         let mut index_to_node = Vec::with_capacity(graph.node_capacity());
 
         for (index, node) in postorder_filtered(
@@ -183,6 +184,10 @@ where
                             return None;
                         }
                         let pred_index = node_to_index[pred];
+                        if pred_index == usize::MAX {
+                            // Not reachable from the entry
+                            return None;
+                        }
                         if dominators[pred_index] == usize::MAX {
                             // No dominator yet
                             return None;
-- 
2.43.0


From 0f4150f70c23682cfa2729be9d1ca209c3ca6a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 23/39] fix: convex checkers consider all links of a multigraph
 output port

---
 src/algorithms/convex/line_convex_checker.rs | 5 +++--
 src/algorithms/convex/topo_convex_checker.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..08023a8 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -634,9 +634,10 @@ impl<G: LinkView> ConvexChecker for LineConvexChecker<G> {
         inputs: impl IntoIterator<Item = PortIndex>,
         outputs: impl IntoIterator<Item = PortIndex>,
     ) -> bool {
-        let pre_outputs: BTreeSet<_> = outputs
+        let pre_outputs: BTreeSet<PortIndex> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p))
+            .map(|(_, to)| to.into())
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
diff --git a/src/algorithms/convex/topo_convex_checker.rs b/src/algorithms/convex/topo_convex_checker.rs
index 883ebe8..34bed8c 100644
--- a/src/algorithms/convex/topo_convex_checker.rs
+++ b/src/algorithms/convex/topo_convex_checker.rs
@@ -127,9 +127,10 @@ impl<G: LinkView> ConvexChecker for TopoConvexChecker<G> {
         inputs: impl IntoIterator<Item = PortIndex>,
         outputs: impl IntoIterator<Item = PortIndex>,
     ) -> bool {
-        let pre_outputs: BTreeSet<_> = outputs
+        let pre_outputs: BTreeSet<PortIndex> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p))
+            .map(|(_, to)| to.into())
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
-- 
2.43.0


From 40e724571a7def1adfb787f3b303c71e53b5177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 24/39] fix: LineConvexChecker treats the empty subgraph as
 convex

---
 src/algorithms/convex/line_convex_checker.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 08023a8..e246f75 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,10 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
-            .values()
-            .map(|LineInterval { min, .. }| min)
-            .max()
-            .unwrap();
+        let Some(max_start_pos) = intervals.values().map(|LineInterval { min, .. }| min).max()
+        else {
+            return true; // The empty subgraph is convex.
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From 61ce3d6e14c04b4942aec606e40c326a5789b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:04 +0000
Subject: [PATCH 25/39] fix: DynamicTopoConvexChecker::link_ports checks for
 cycles along the link direction

---
 src/algorithms/dynamic.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..051cbfe 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -397,15 +397,22 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
             .graph
             .port_node(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
-        if self
-            .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+        // The ports may be given in either order.
+        let from_direction = self.graph.port_direction(from);
+        let (source, target) = match from_direction {
+            Some(Direction::Incoming) => (to_node, from_node),
+            _ => (from_node, to_node),
+        };
+        if from_direction != self.graph.port_direction(to)
+            && self
+                .topo_sort
+                .would_create_cycle(source, target, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
         let result = self.graph.link_ports(from, to)?;
         self.topo_sort
-            .connect_nodes(from_node, to_node, &self.graph)
+            .connect_nodes(source, target, &self.graph)
             .map_err(|e| match e {
                 DynamicTopoSortError::InvalidNode { .. } => LinkError::UnknownPort { port: from },
                 DynamicTopoSortError::WouldCreateCycle { .. } => {
-- 
2.43.0


From 0bafb38ddc43ef04228e096ce63e41f16dcc1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 26/39] fix: DynamicTopoSort reorders only the positions of
 affected nodes

---
 src/algorithms/dynamic.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 051cbfe..25acd5b 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -151,13 +151,18 @@ impl DynamicTopoSort {
         }
         let lb = to_pos;
         let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        let mut delta_f = self.cone(to, ub, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, lb, graph, Direction::Incoming);
+        // Reuse the positions of the affected nodes: first for those before the
+        // edge and then for those after it, each in their previous order.
+        delta_b.sort_unstable_by_key(|n| self.node_to_pos[n]);
+        delta_f.sort_unstable_by_key(|n| self.node_to_pos[n]);
+        let affected: Vec<NodeIndex> = delta_b.into_iter().chain(delta_f).collect();
+        let mut positions: Vec<usize> = affected.iter().map(|n| self.node_to_pos[n]).collect();
+        positions.sort_unstable();
+        for (w, new_pos) in affected.into_iter().zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-- 
2.43.0


From aa6bd0936839e535b4e291e81c3c1528bfd9e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 27/39] fix: DynamicTopoConvexChecker keeps its order in step
 with its nodes

---
 src/algorithms/dynamic.rs | 43 +++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 25acd5b..bb2d8e9 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -102,6 +102,15 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Replaces the node indices, keeping the order.
+    fn rename_nodes(&mut self, rename: impl Fn(NodeIndex) -> NodeIndex) {
+        for node in &mut self.order {
+            *node = rename(*node);
+        }
+        let positions = self.order.iter().enumerate();
+        self.node_to_pos = positions.map(|(pos, &node)| (node, pos)).collect();
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -371,16 +380,42 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // Removing an absent node does nothing.
+        let _ = self.topo_sort.remove_node(node);
+    }
+
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.rename_nodes(|n| {
+            if n == a {
+                b
+            } else if n == b {
+                a
+            } else {
+                n
+            }
+        });
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let mut renamed = HashMap::new();
+        self.graph.compact_nodes(|old, new| {
+            renamed.insert(old, new);
+            rekey(old, new);
+        });
+        self.topo_sort
+            .rename_nodes(|n| renamed.get(&n).copied().unwrap_or(n));
     }
 
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From 3dfc2ccc12a2695d53bcddb3881fc2f1ea2bb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 28/39] fix: DynamicTopoConvexChecker::is_convex follows paths
 that leave and re-enter the subgraph

---
 src/algorithms/dynamic.rs | 139 +++++++-------------------------------
 1 file changed, 26 insertions(+), 113 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index bb2d8e9..37ab08d 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -4,7 +4,6 @@ use crate::{
     Direction, LinkError, LinkMut, LinkView, NodeIndex, PortIndex, PortMut, PortOffset, PortView,
 };
 use delegate::delegate;
-use std::cmp::{max, min};
 use std::collections::{HashMap, HashSet, VecDeque};
 use thiserror::Error;
 
@@ -230,73 +229,30 @@ impl DynamicTopoSort {
         &self.order
     }
 
+    /// Checks if there is a path between two of the `nodes`, none of which may be
+    /// at a position after `max_pos`, via a node that is not among them.
     fn has_path_outside_subgraph<G: LinkView>(
         &self,
-        start: NodeIndex,
-        end: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
         nodes: &HashSet<NodeIndex>,
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back(start);
-        while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
-                return true;
-            }
-            if node == end {
-                continue;
-            }
-            if visited.insert(node) {
-                for n in graph.output_neighbours(node) {
-                    let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                    if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
-                    }
-                }
-            }
-        }
-        false
-    }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
         max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
         graph: &G,
     ) -> bool {
         let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
+        let mut queue: VecDeque<NodeIndex> = nodes
+            .iter()
+            .flat_map(|&n| graph.output_neighbours(n))
+            .filter(|n| !nodes.contains(n))
+            .collect();
+        while let Some(node) = queue.pop_front() {
             let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
+            if pos > max_pos || !visited.insert(node) {
                 continue;
             }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
+            for neighbour in graph.output_neighbours(node) {
+                if nodes.contains(&neighbour) {
+                    return true;
                 }
+                queue.push_back(neighbour);
             }
         }
         false
@@ -500,63 +456,20 @@ where
         if nodes.len() < 2 {
             return true;
         }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
-        let mut min_pos = usize::MAX;
-        let mut max_pos = 0;
-
-        for &node in &nodes {
-            if let Some(&pos) = self.topo_sort.node_to_pos.get(&node) {
-                min_pos = min(min_pos, pos);
-                max_pos = max(max_pos, pos);
-            } else {
-                return false;
-            }
-        }
-
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
-            }
-            return true;
-        }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
-                    continue;
-                }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
-                    return false;
-                }
-            }
+        // A link from an output to an input is outside of the subgraph.
+        let inputs: HashSet<PortIndex> = inputs.into_iter().collect();
+        if outputs
+            .into_iter()
+            .filter(|&p| self.graph.contains_port(p))
+            .flat_map(|p| self.graph.port_links(p))
+            .any(|(_, to)| inputs.contains(&to.into()))
+        {
+            return false;
         }
-        true
+        let max_pos = nodes.iter().map(|n| self.topo_sort.node_to_pos[n]).max();
+        !self
+            .topo_sort
+            .has_path_outside_subgraph(&nodes, max_pos.unwrap_or_default(), &self.graph)
     }
 }
 
-- 
2.43.0


From cd899c497bebeb83615e9475ea206a2a555219a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 29/39] fix: Boundary::port_ordering ignores links across the
 boundary

---
 src/boundary.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index cd5aefd..3d1aacf 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -168,11 +168,22 @@ impl Boundary {
         // We keep track of how many output neighbors remain to be visited, so we can
         // trim the `reaching` set when we reach the last one.
 
+        // The neighbours of a node, ignoring the links that cross the boundary.
+        let internal_neighbours = |node, direction| {
+            graph
+                .ports(node, direction)
+                .filter(|p| !boundary_ports.contains(p))
+                .flat_map(|p| graph.port_links(p))
+                .map(|(_, other_port)| other_port.into())
+                .filter(|other_port| !boundary_ports.contains(other_port))
+                .map(|other_port: PortIndex| graph.port_node(other_port).unwrap())
+        };
+
         // We have to start the toposort from the input nodes that do not have predecessors.
         let source_nodes = input_nodes.keys().copied().filter(|&node| {
-            graph
-                .inputs(node)
-                .all(|p| boundary_ports.contains(&p) || graph.port_links(p).count() == 0)
+            internal_neighbours(node, Direction::Incoming)
+                .next()
+                .is_none()
         });
 
         let mut reaching: BTreeMap<NodeIndex, (usize, HashSet<PortIndex>)> = BTreeMap::new();
@@ -207,9 +218,11 @@ impl Boundary {
 
                 // Explore the subgraph induced by the boundary, and add any node with no input neighbours
                 // to the candidates list for the toposort traversal.
-                let new_source_nodes = self
-                    .internal_nodes(graph)
-                    .filter(|&node| graph.input_neighbours(node).count() == 0);
+                let new_source_nodes = self.internal_nodes(graph).filter(|&node| {
+                    internal_neighbours(node, Direction::Incoming)
+                        .next()
+                        .is_none()
+                });
                 topo.add_sources(new_source_nodes);
 
                 continue;
@@ -221,7 +234,7 @@ impl Boundary {
                 input_nodes.remove(&node).into_iter().flatten().collect();
 
             // Add the reaching ports from the input neighbours.
-            for input_neigh in graph.input_neighbours(node) {
+            for input_neigh in internal_neighbours(node, Direction::Incoming) {
                 let (output_neighs, input_reaching) = reaching
                     .get_mut(&input_neigh)
                     .expect("Incoming neighbour not visited");
@@ -244,7 +257,7 @@ impl Boundary {
                 }
             }
 
-            let output_neighs = graph.output_neighbours(node).count();
+            let output_neighs = internal_neighbours(node, Direction::Outgoing).count();
             reaching.insert(node, (output_neighs, reaching_ports));
 
             // If we have explored all the nodes for the input or output ports,
-- 
2.43.0


From 756d448b5afee0acc879949de8ea1847c9fcc071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 30/39] fix: petgraph VisitMap::visit returns true on the first
 visit

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..39ced94 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -311,7 +311,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From a01bb09b487798380282768b517abf74823f9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 31/39] fix: petgraph edge_references returns each edge once

---
 src/view/petgraph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 39ced94..2437609 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -377,10 +377,13 @@ where
     G: LinkView,
 {
     /// Create a new iterator over the edges of a portgraph.
+    ///
+    /// Each edge is returned once, from its source to its target.
     pub fn new(graph: &'g G) -> Self {
+        let ports = graph.nodes_iter().flat_map(|node| graph.outputs(node));
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            ports: Box::new(ports),
             links: None,
             count: graph.link_count(),
         }
@@ -396,6 +399,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count -= 1;
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From 8eeecbc4fc4d85ed507106fc0887ce2c89201b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 32/39] fix: petgraph edges and edges_directed follow the edge
 direction

---
 src/view/petgraph.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 2437609..31c47e1 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -149,7 +149,7 @@ macro_rules! impl_petgraph_traits {
             type Edges = NodeEdgeRefs<'g, $graph>;
 
             fn edges(self, n: Self::NodeId) -> Self::Edges {
-                NodeEdgeRefs::new(self, n)
+                NodeEdgeRefs::new_directed(self, n, crate::Direction::Outgoing)
             }
         }
 
@@ -456,10 +456,17 @@ where
     }
 
     /// Create a new iterator over the edges of a portgraph.
+    ///
+    /// Each edge is returned from its source to its target: the node is the
+    /// source of its outgoing edges and the target of its incoming edges.
     pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
+        let links = graph.links(node, dir);
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            links: match dir {
+                crate::Direction::Incoming => Box::new(links.map(|(to, from)| (from, to))),
+                crate::Direction::Outgoing => Box::new(links),
+            },
         }
     }
 }
-- 
2.43.0


From bd0110f84668de770d0ac96a950f05275b3bc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 33/39] fix: petgraph node_bound is a bound of the node indices

---
 src/view/petgraph.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 31c47e1..880996c 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,9 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                // Indices may have holes.
+                let indices = self.nodes_iter().map(|n| n.index() + 1);
+                indices.max().unwrap_or_default()
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
@@ -190,7 +192,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From 259692013fefc917b7c4e4481fb965f78b5b97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 34/39] fix: deserialising an index or offset that is too large
 is an error

It used to panic inside the Deserialize implementation.
---
 src/index.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 71226e2..5662e2c 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -104,7 +104,8 @@ macro_rules! index_impls {
             where
                 D: serde::Deserializer<'de>,
             {
-                Ok($name::new(serde::Deserialize::deserialize(deserializer)?))
+                let index: usize = serde::Deserialize::deserialize(deserializer)?;
+                $name::try_from(index).map_err(serde::de::Error::custom)
             }
         }
     };
@@ -382,9 +383,15 @@ mod serde_port_offset_impl {
         }
     }
 
-    impl<U: Unsigned> From<PortOffsetSer> for PortOffset<U> {
-        fn from(port_offset: PortOffsetSer) -> Self {
-            Self::new(port_offset.direction, port_offset.index)
+    impl<U: Unsigned> TryFrom<PortOffsetSer> for PortOffset<U> {
+        type Error = IndexError;
+
+        fn try_from(port_offset: PortOffsetSer) -> Result<Self, Self::Error> {
+            let PortOffsetSer { index, direction } = port_offset;
+            if index > Self::max_offset() {
+                return Err(IndexError { index });
+            }
+            Ok(Self::new(direction, index))
         }
     }
 
@@ -406,7 +413,7 @@ mod serde_port_offset_impl {
             D: Deserializer<'de>,
         {
             let port_offset: PortOffsetSer = Deserialize::deserialize(deserializer)?;
-            Ok(port_offset.into())
+            port_offset.try_into().map_err(serde::de::Error::custom)
         }
     }
 }
-- 
2.43.0


From fa7d36976ab0f14428a0e7e193e3cb0549a6b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 35/39] fix: lca of a graph that does not contain the roots of
 the hierarchy

LCA::new only traversed trees whose root is in the graph, and answered
nonsense for the nodes of the others when given a view. The mermaid
diagrams relied on this to draw the edges between a region root and its
children outside of it; draw all edges outside of the nodes they connect.
---
 src/algorithms/lca.rs | 10 ++++++++--
 src/render/mermaid.rs |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lca.rs b/src/algorithms/lca.rs
index 2193624..f63aafc 100644
--- a/src/algorithms/lca.rs
+++ b/src/algorithms/lca.rs
@@ -45,13 +45,19 @@ impl LCA {
         // `first_visit`, and `last_visit` arrays.
         let mut timestamp = 0;
         let mut stack = vec![];
-        for root in graph.nodes_iter() {
+        for node in graph.nodes_iter() {
             // We start with an empty stack
             debug_assert!(stack.is_empty());
 
-            if !hierarchy.is_root(root) {
+            // Skip the nodes in already traversed trees.
+            if lca.last_visit[node] != 0 {
                 continue;
             }
+            // The root may not be in the graph, if this is a view of a subset of the nodes.
+            let mut root = node;
+            while let Some(parent) = hierarchy.parent(root) {
+                root = parent;
+            }
             stack.push(DFSState::Visit {
                 node: root,
                 parent: None,
diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 3c28503..cf74b3a 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -143,8 +143,15 @@ where
                         let src_node = self.graph.port_node(src).unwrap();
                         let tgt_node = self.graph.port_node(tgt).unwrap();
                         let lca = lca.as_ref().and_then(|l| l.lca(src_node, tgt_node));
+                        let region = match lca {
+                            // A node is not the parent of itself.
+                            Some(n) if n == src_node || n == tgt_node => {
+                                self.forest.and_then(|f| f.parent(n))
+                            }
+                            _ => lca,
+                        };
                         edges
-                            .entry(lca)
+                            .entry(region)
                             .or_insert_with(Vec::new)
                             .push((src_node, src, tgt_node, tgt));
                     }
-- 
2.43.0


From 9c3448566b8b76b1b1eb248be1ecaa5ff72440e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 36/39] fix: mermaid diagrams of a view only show the nodes of
 the view

The children of a node were drawn even if the view does not contain them.
---
 src/render/mermaid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index cf74b3a..56100f7 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -189,12 +189,15 @@ where
 
     /// Helper function to check if a node is a leaf in the hierarchy.
     fn is_leaf(&self, node: NodeIndex) -> bool {
-        self.forest.map_or(true, |f| !f.has_children(node))
+        self.node_children(node).next().is_none()
     }
 
-    /// Returns the children of a node in the hierarchy.
+    /// Returns the children of a node in the hierarchy that are part of the graph.
     fn node_children(&self, node: NodeIndex) -> impl DoubleEndedIterator<Item = NodeIndex> + '_ {
-        self.forest.iter().flat_map(move |f| f.children(node))
+        self.forest
+            .iter()
+            .flat_map(move |f| f.children(node))
+            .filter(|&child| self.graph.contains_node(child))
     }
 }
 
-- 
2.43.0


From c4845e386027553e2ec529f57ccb5eca766f65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 37/39] fix: mermaid diagrams do not connect edges to hidden
 nodes

---
 src/render/mermaid.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 56100f7..34ce6c8 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -1,6 +1,6 @@
 //! Functions to encode a `PortGraph` in mermaid format.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -278,6 +278,8 @@ struct MermaidBuilder<'g, G: LinkView> {
     output: String,
     /// The current indentation level.
     indent: usize,
+    /// The hidden nodes added so far. No edges are connected to them.
+    hidden: HashSet<NodeIndex>,
     /// The styling function for nodes.
     node_style: Option<Box<dyn FnMut(NodeIndex) -> NodeStyle + 'g>>,
     /// The styling function for edges.
@@ -295,6 +297,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         Self {
             output: "graph LR\n".to_string(),
             indent: 1,
+            hidden: HashSet::new(),
             node_style,
             edge_style,
         }
@@ -337,7 +340,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match style {
-            NodeStyle::Hidden => self.push_strings(&[id.as_ref(), ":::hidden"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&[id.as_ref(), ":::hidden"]);
+            }
             #[allow(deprecated)]
             NodeStyle::Box(lbl) => {
                 self.push_strings(&[id.as_ref(), "[", &encode_label(&id, &lbl), "]"]);
@@ -368,7 +374,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match &style {
-            NodeStyle::Hidden => self.push_strings(&["subgraph ", id.as_ref(), " [ ]"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&["subgraph ", id.as_ref(), " [ ]"]);
+            }
             NodeStyle::Boxed { label, .. } => self.push_strings(&[
                 "subgraph ",
                 id.as_ref(),
@@ -400,7 +409,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         self.push_line("end");
     }
 
-    /// Adds an edge to the mermaid definition.
+    /// Adds an edge to the mermaid definition, unless one of its nodes is hidden.
+    ///
+    /// Both nodes must have been added before.
     pub fn add_link(
         &mut self,
         src_node: NodeIndex,
@@ -408,6 +419,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         tgt_node: NodeIndex,
         tgt: G::LinkEndpoint,
     ) {
+        if self.hidden.contains(&src_node) || self.hidden.contains(&tgt_node) {
+            return;
+        }
         let style = self
             .edge_style
             .as_mut()
-- 
2.43.0


From 5e23880bb408f644ee81040387da107a3a6e5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 38/39] fix: dot diagrams do not connect edges to hidden nodes

---
 src/render/dot.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/render/dot.rs b/src/render/dot.rs
index d5db7d8..c785381 100644
--- a/src/render/dot.rs
+++ b/src/render/dot.rs
@@ -1,5 +1,6 @@
 //! Functions to encode a `PortGraph` in dot format.
 
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -112,9 +113,19 @@ where
 
     /// Append the node and edge data in dot format to a string
     fn node_and_edge_strings(&mut self, dot: &mut String) {
-        for node in self.graph.nodes_iter() {
+        let node_styles: Vec<(NodeIndex, NodeStyle)> = self
+            .graph
+            .nodes_iter()
+            .map(|node| (node, self.node_style(node)))
+            .collect();
+        let hidden: HashSet<NodeIndex> = node_styles
+            .iter()
+            .filter(|(_, style)| matches!(style, NodeStyle::Hidden))
+            .map(|(node, _)| *node)
+            .collect();
+
+        for (node, node_style) in node_styles {
             // Format the node as a table
-            let node_style = self.node_style(node);
             let (node_label, attrs) = match node_style {
                 NodeStyle::Boxed { label, attrs } => (label, attrs),
                 #[allow(deprecated)]
@@ -156,6 +167,10 @@ where
             self.graph
                 .outputs(node)
                 .flat_map(|port| self.graph.port_links(port))
+                .filter(|&(_, to)| {
+                    let to_node = self.graph.port_node(to).expect("missing node");
+                    !hidden.contains(&to_node)
+                })
                 .map(|(from, to)| self.get_edge_dot(node, from, to))
                 .for_each(|edge| {
                     dot.push_str(&edge);
-- 
2.43.0


From e1c635ab42d3a6c06aa13b899b00b5f350a2f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:34 +0000
Subject: [PATCH 39/39] fix: changes by indices of internal nodes and ports do
 nothing in a MultiPortGraph

Removing or resizing a node, or unlinking a port, by an index that belongs to an internal copy node
(for instance a stale index that was reused) panicked or destroyed links.
---
 src/multiportgraph.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 790df4c..479ff12 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -194,7 +194,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn remove_node(&mut self, node: NodeIndex) {
-        debug_assert!(!self.copy_node.get(node));
+        if self.is_copy_node(node) {
+            // Not a node of the multiportgraph.
+            return;
+        }
         for port in self.graph._all_ports(node) {
             if *self.multiport.get(port) {
                 self.unlink_port(port);
@@ -222,6 +225,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
+        if self.is_copy_node(node) {
+            // Not a node of the multiportgraph.
+            return;
+        }
         let mut dropped_ports = Vec::new();
         let rekey_wrapper = |port, op| {
             match op {
@@ -330,6 +337,9 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn unlink_port(&mut self, port: PortIndex) -> Option<SubportIndex> {
+        if !self.contains_port(port) {
+            return None;
+        }
         if self.is_multiport(port) {
             let link = self
                 .graph
@@ -478,7 +488,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         }
     }
 
-    /// Adds an extra port to a node, in the specified direction.
+    /// Adds an extra port to a copy node, in the specified direction.
     #[inline]
     fn add_port(&mut self, node: NodeIndex, direction: Direction) -> PortIndex {
         let mut incoming = self.graph.num_inputs(node);
@@ -493,7 +503,12 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
                 outgoing - 1
             }
         };
-        self.set_num_ports(node, incoming, outgoing, |_, _| {});
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |port, op| {
+                if let PortOperation::Moved { new_index } = op {
+                    self.multiport.swap(port, new_index);
+                }
+            });
         self.graph
             .port_index(node, PortOffset::new(direction, new_offset))
             .unwrap()
-- 
2.43.0

