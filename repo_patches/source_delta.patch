From 0f40e88ae16b466749cc46313e5e78e7c6aa6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 1/9] fix: encode the mass cancel instruction code in its
 builder

The mass_cancel_orders builder emitted the close_market instruction code, so
the resulting instruction attempted to close the market instead.
---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From 5834f2bb27c1788752b94e8d9af0974b0a8786ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 2/9] fix: removing an absent key from a one-order tree returns
 None

When the root is a leaf that does not hold the searched key, the search went
on with leaf slot 0. If that slot was freed and still held the key, the
removal indexed the inner node array with an invalid handle and panicked
instead of reporting the absence.
---
 program/src/state/critbit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..1fc7a2f 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -367,6 +367,10 @@ impl<'a, C> Slab<'a, C> {
             self.header.leaf_count = 0;
             return Some((leaf_copy, self.get_callback_info(parent_h)));
         }
+        if let Node::Leaf = Node::from_handle(parent_h) {
+            // The only order in the tree doesn't match the search key
+            return None;
+        }
         loop {
             match Node::from_handle(child_h) {
                 Node::Inner => {
-- 
2.43.0


From 5789d77fc29fbfc4da03c74b35afb98098cd6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 3/9] fix: finish the last price level in the wasm depth query

find_l2_depth stopped as soon as the requested number of levels had been
started, so the last level only counted its first order. Keep walking until
an order at another price is found, as getL2DepthJS does.
---
 js/wasm/src/critbit.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index adc7beb..10caa75 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -385,12 +385,8 @@ impl<'a> Slab<'a> {
         }
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
-        while result.len() != 2 * depth {
-            let current = search_stack.pop();
-            if current.is_none() {
-                break;
-            }
-            let node = self.get_node(current.unwrap()).unwrap();
+        while let Some(current) = search_stack.pop() {
+            let node = self.get_node(current).unwrap();
             match node {
                 Node::Inner(ref inner) => {
                     search_stack.push(inner.children[increasing as usize]);
@@ -401,6 +397,10 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
+                    } else if result.len() == 2 * depth {
+                        // The price has changed and there are enough levels. Orders at the last
+                        // level's price are still added to it by the branch above.
+                        break;
                     } else {
                         result.push(leaf.base_quantity);
                         result.push(leaf_price);
-- 
2.43.0


From f31ad881cbf298b9a78f80093de98d6169fd5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 4/9] fix: account tags of the client are those of the program

---
 js/src/market_state.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/js/src/market_state.ts b/js/src/market_state.ts
index f6cc42e..5121e39 100644
--- a/js/src/market_state.ts
+++ b/js/src/market_state.ts
@@ -9,11 +9,12 @@ import BN from "bn.js";
 
 /** @enum {number} */
 export enum AccountTag {
-  Initialized = 0,
-  Market = 1,
-  EventQueue = 2,
-  Bids = 3,
-  Asks = 4,
+  Uninitialized = 0,
+  Market = 128,
+  EventQueue = 129,
+  Bids = 130,
+  Asks = 131,
+  Disabled = 132,
 }
 
 /** @enum {number} */
-- 
2.43.0


From 6a60ba98beea7c3bc0fa78cc2e9b013a80accf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 5/9] fix: the event queue header's tag is an AccountTag, not a
 BN

---
 js/src/event_queue.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index 396195a..b84352a 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -41,8 +41,8 @@ export class EventQueueHeader {
     ],
   ]);
 
-  constructor(arg: { tag: number; head: BN; count: BN; seqNum: BN }) {
-    this.tag = arg.tag as AccountTag;
+  constructor(arg: { tag: BN; head: BN; count: BN; seqNum: BN }) {
+    this.tag = arg.tag.toNumber() as AccountTag;
     this.head = arg.head;
     this.count = arg.count;
     this.seqNum = arg.seqNum;
-- 
2.43.0


From 6bb4f8a4144173e39194c25419399c35b1339399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 6/9] fix: the client rounds the capacity of a slab down, as
 the program does

---
 js/src/slab.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index c416a06..7d60858 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -160,9 +160,10 @@ export class Slab {
     this.callBackInfoLen = arg.callBackInfoLen;
     const leafSize = LeafNode.LEN + arg.callBackInfoLen;
 
-    const capacity =
+    const capacity = Math.floor(
       (arg.buffer.length - SlabHeader.LEN - leafSize) /
-      (leafSize + InnerNode.LEN);
+        (leafSize + InnerNode.LEN)
+    );
     let innerNodesBufferOffset = SlabHeader.LEN + (capacity + 1) * LeafNode.LEN;
     let leavesBuffer = arg.buffer.slice(SlabHeader.LEN, innerNodesBufferOffset);
     let callbackInfoBufferOffset =
@@ -172,7 +173,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = Math.floor(capacity);
+    this.orderCapacity = capacity;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0


From f88d68c4ad7407e69c6099b1bb41caf1a839d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 7/9] fix: parseFill starts at the head of the event queue

---
 js/src/event_queue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index b84352a..9e557dc 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -266,7 +266,7 @@ export class EventQueue {
       ? Math.min(limit, this.header.count.toNumber())
       : this.header.count.toNumber();
     return [...Array(n).keys()]
-      .map((e) => this.parseEvent(e))
+      .map((e) => this.peekAt(e))
       .filter((e) => e instanceof EventFill);
   }
 
-- 
2.43.0


From 60876f4888aaa200b9fbe3a742f7fc339e8602a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 8/9] fix: mass cancel reports a total beyond 64 bits as an
 error instead of panicking

---
 program/src/processor/mass_cancel_orders.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/program/src/processor/mass_cancel_orders.rs b/program/src/processor/mass_cancel_orders.rs
index 1faee75..fc9966f 100644
--- a/program/src/processor/mass_cancel_orders.rs
+++ b/program/src/processor/mass_cancel_orders.rs
@@ -100,10 +100,12 @@ where
     for order_id in params.order_ids {
         let slab = order_book.get_tree(get_side_from_order_id(order_id));
         let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
-        total_base_qty = total_base_qty.checked_add(leaf_node.base_quantity).unwrap();
+        total_base_qty = total_base_qty
+            .checked_add(leaf_node.base_quantity)
+            .ok_or(AoError::NumericalOverflow)?;
         total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
             .and_then(|n| n.checked_add(total_quote_qty))
-            .unwrap();
+            .ok_or(AoError::NumericalOverflow)?;
     }
 
     let order_summary = OrderSummary {
-- 
2.43.0


From 51412cd0e3e06192ab2a5cb878ee1f43567613fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 9/9] fix: market creation reports an event queue account that
 is too small instead of panicking

---
 program/src/processor/create_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 4df4a09..9c78abd 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -90,7 +90,7 @@ pub fn process<'a, 'b: 'a, C: Pod>(
         return Err(ProgramError::InvalidArgument);
     }
 
-    EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow()).unwrap();
+    EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow())?;
 
     let mut market_data = accounts.market.data.borrow_mut();
 
-- 
2.43.0

