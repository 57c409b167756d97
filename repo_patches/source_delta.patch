From a80086b8a8640021e4e07775b5d344bb373bb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 1/5] fix: removing an absent key from a one-order slab returns
 None

When the root is a single leaf with another key, remove_by_key went on as if
slot 0 were a child of an inner node. If the freed contents of slot 0 still
carried the searched key it indexed the inner nodes with a leaf handle and
panicked.
---
 program/src/state/critbit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..bac7548 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -346,10 +346,14 @@ impl<'a, C> Slab<'a, C> {
                     #[cfg(target_os = "solana")]
                     if leaf.key == search_key {
                         remove_root = Some(*leaf);
+                    } else {
+                        return None;
                     }
                     #[cfg(not(target_os = "solana"))]
                     if leaf.order_id() == search_key {
                         remove_root = Some(*leaf);
+                    } else {
+                        return None;
                     }
                 }
                 Node::Inner => {
-- 
2.43.0


From ad4427f8ae30feec9a6b593be26c4d195195e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 2/5] fix: mass_cancel_orders instruction builder uses its own
 instruction tag

---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From 2e2ff5babbcdd69981029f86b82b6f47a3186d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 3/5] fix: round_price no longer overflows when rounding up a
 price close to u64::MAX

---
 program/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/utils.rs b/program/src/utils.rs
index 753c0db..c73cbb0 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -56,7 +56,7 @@ pub fn round_price(tick_size: u64, limit_price: u64, side: Side) -> u64 {
         // Round down
         Side::Bid => tick_size * (limit_price / tick_size),
         // Round up
-        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
+        Side::Ask => tick_size * (limit_price / tick_size + (limit_price % tick_size != 0) as u64),
     }
 }
 
-- 
2.43.0


From 2eb36666b1e67b3a5e230d5b67f03da2208daf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 4/5] verification hooks behind cfg(aob_verif)

---
 program/src/state/critbit.rs     | 12 ++++++++++++
 program/src/state/event_queue.rs | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index bac7548..75821d5 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -668,6 +668,18 @@ impl<'queue, C: Clone> Slab<'queue, C> {
     }
 }
 
+#[cfg(aob_verif)]
+impl<'a, C> Slab<'a, C> {
+    /// Verification hook: insert a leaf directly
+    #[doc(hidden)]
+    pub fn verif_insert_leaf(
+        &mut self,
+        new_leaf: &LeafNode,
+    ) -> Result<(NodeHandle, Option<LeafNode>), AoError> {
+        self.insert_leaf(new_leaf)
+    }
+}
+
 pub struct SlabIterator<'a, C> {
     slab: Slab<'a, C>,
     search_stack: Vec<u32>,
diff --git a/program/src/state/event_queue.rs b/program/src/state/event_queue.rs
index a53464a..23381f7 100644
--- a/program/src/state/event_queue.rs
+++ b/program/src/state/event_queue.rs
@@ -322,6 +322,27 @@ impl<'a, C> Iterator for QueueIterator<'a, C> {
     }
 }
 
+#[cfg(aob_verif)]
+impl<'queue, C: Clone> EventQueue<'queue, C> {
+    /// Verification hook: push a fill event directly, false if it was refused
+    #[doc(hidden)]
+    pub fn verif_push_fill(&mut self, event: FillEvent, maker: &C, taker: &C) -> bool {
+        self.push_back(event, Some(maker), Some(taker)).is_ok()
+    }
+
+    /// Verification hook: push an out event directly, false if it was refused
+    #[doc(hidden)]
+    pub fn verif_push_out(&mut self, event: OutEvent, callback_info: &C) -> bool {
+        self.push_back(event, Some(callback_info), None).is_ok()
+    }
+
+    /// Verification hook: draw the next order id
+    #[doc(hidden)]
+    pub fn verif_gen_order_id(&mut self, limit_price: u64, side: Side) -> u128 {
+        self.gen_order_id(limit_price, side)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 263b7dbade024f9b3e7c0381e55688344f89aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:19 +0000
Subject: [PATCH 5/5] fix: find_l2_depth sums all orders of the last price
 level

---
 js/wasm/src/critbit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index adc7beb..6acf9b1 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -385,7 +385,7 @@ impl<'a> Slab<'a> {
         }
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
-        while result.len() != 2 * depth {
+        loop {
             let current = search_stack.pop();
             if current.is_none() {
                 break;
@@ -401,6 +401,9 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
+                    } else if result.len() == 2 * depth {
+                        // The next price level starts here: all orders of the last level are summed up
+                        break;
                     } else {
                         result.push(leaf.base_quantity);
                         result.push(leaf_price);
-- 
2.43.0

