From 25315f154e27b76734419b595dfa250c618f01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 01/15] fix: searching an empty node finds nothing instead of
 panicking

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From 0783bd6db5827af16ed7ce379f48881e025d8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 02/15] fix: pop_right reports the offset of the popped item

---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..8c1302b 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,7 +441,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
+			let offset = self.other_children.len() - 1;
 			let last = self.other_children.pop().unwrap();
 			Ok(RightBranch {
 				offset: offset.into(),
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..a246012 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,7 +200,7 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
+			let offset = self.items.len() - 1;
 			let item = self.items.pop().unwrap();
 			Ok((offset.into(), item))
 		}
-- 
2.43.0


From f464299627c9f365bb20426d4031cce986893242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 03/15] fix: the item following the back address of an internal
 node is not below that node

---
 src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..8eae646 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -221,7 +221,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// the address is after all the node's items and children.
+			_ => return self.normalize(addr),
 		}
 
 		// let original_addr_shifted = addr;
@@ -322,7 +323,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// the address is after all the node's items and children.
+			_ => return Some(self.normalize(addr).unwrap_or(addr)),
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 0f87be5069974d9b8e8cf21c1d7f8af941fd8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 04/15] fix: previous_item_address accepts the address before a
 node

---
 src/storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 8eae646..6e74340 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -132,8 +132,11 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match addr
+				.offset
+				.value()
+				.and_then(|offset| node.child_id_opt(offset))
+			{
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From e740740f1d821842a2fc8c20e61b0d392a5cf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 05/15] fix: reading the address before an internal node gives
 no item instead of panicking

---
 src/node/internal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 8c1302b..43f82e2 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,7 +276,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
+		match offset.value().and_then(|i| self.other_children.get(i)) {
 			Some(b) => Some(&b.item),
 			None => None,
 		}
@@ -284,7 +284,10 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
+		match offset
+			.value()
+			.and_then(|i| self.other_children.get_mut(i))
+		{
 			Some(b) => Some(&mut b.item),
 			None => None,
 		}
-- 
2.43.0


From 76155ba65b35a419c74fceb487ae7baf8c42c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 06/15] fix: removing at the address before a node removes
 nothing instead of panicking

---
 src/node/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..7c0fbd3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -418,7 +418,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
 			Node::Internal(node) => {
-				if offset < node.item_count() {
+				if !offset.is_before() && offset < node.item_count() {
 					let left_child_index = offset.unwrap();
 					Some(Err(node.child_id(left_child_index)))
 				} else {
@@ -426,7 +426,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 				}
 			}
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if !offset.is_before() && offset < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From d29b86a4dc130196054309e03a529c03c15eb944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 07/15] fix: normalizing the address before a node gives the
 next item

---
 src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 6e74340..b25eb67 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -81,6 +81,10 @@ pub unsafe trait Storage<T>: Default {
 	///
 	/// Input address's node must not have been deallocated.
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
+		if addr.offset.is_before() {
+			return self.next_item_address(addr);
+		}
+
 		loop {
 			let node = self.get(addr.node);
 			if addr.offset >= node.item_count() {
-- 
2.43.0


From 65e3057f02265e2fbc45502b4e6d7376697e0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 08/15] fix: a panicking item destructor in clear no longer
 leads to a double drop

---
 src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..ff12bcb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,12 +467,22 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
+
+		// Detach the nodes first, so that they cannot be dropped again if the
+		// destructor of an item panics.
+		let root = self.root.take();
+		self.len = 0;
+
 		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
+			if let Some(id) = root {
+				unsafe {
+					let node = self.nodes.get(id);
+					node.visit_from_leaves(&self.nodes, |id| dropper.drop_node(id));
+					dropper.drop_node(id)
+				}
+			}
 		}
 
-		self.root = None;
-		self.len = 0;
 		self.nodes = S::default();
 	}
 
-- 
2.43.0


From ed05a16982e06da4762ec6b17d1d5d96a8437046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 09/15] fix: a panicking item destructor in IntoIter::drop no
 longer leads to a double drop

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff12bcb..d89d9f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -900,7 +900,16 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Forgets the tree content, even if the destructor of an item panics.
+		struct Guard<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<'a, T, S: Storage<T>> Drop for Guard<'a, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget();
+			}
+		}
+
+		let guard = Guard(self);
+		while guard.0.next().is_some() {}
 	}
 }
-- 
2.43.0


From dfc0c38f7dfc15b1422fa9f6e3b2aeb0497a20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 10/15] Build-time hook to choose the order of the trees (cfg
 raw_btree_order)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d89d9f8..ceb9b01 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 //! any B-Tree-based data structure.
 //!
 //! [`RawBTree`]: crate::RawBTree
+#![allow(unexpected_cfgs)] // `raw_btree_order`, see `M`.
 pub(crate) mod utils;
 
 pub mod node;
@@ -21,8 +22,16 @@ use crate::utils::Array;
 /// Knuth order of the B-Trees.
 ///
 /// Must be at least 4.
+#[cfg(not(raw_btree_order))]
 pub const M: usize = 8;
 
+/// Knuth order of the B-Trees, set at build time to a single digit.
+///
+/// Verification hook, enabled by `--cfg raw_btree_order` with the
+/// `RAW_BTREE_ORDER` environment variable set.
+#[cfg(raw_btree_order)]
+pub const M: usize = (env!("RAW_BTREE_ORDER").as_bytes()[0] - b'0') as usize;
+
 pub struct RawBTree<T, S: Storage<T> = BoxStorage> {
 	/// Allocated and free nodes.
 	nodes: S,
-- 
2.43.0


From eb8603ddef9d05353523b579d4d296f047a3f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 11/15] fix: Array::clear drops each item once even if a
 destructor panics

---
 src/utils/array.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5df799a..4148306 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -147,10 +147,12 @@ impl<T, const N: usize> Array<T, N> {
 	}
 
 	pub fn clear(&mut self) {
-		for i in 0..self.len {
+		// Give up the items first, so that none is dropped again if a destructor
+		// panics.
+		let len = std::mem::take(&mut self.len);
+		for i in 0..len {
 			unsafe { self.buffer[i].assume_init_drop() };
 		}
-		self.len = 0;
 	}
 }
 
-- 
2.43.0


From e730f0b450cb7b9ee3564c238acfd97b828dfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 12/15] fix: Array::drain refuses a range beyond the end

---
 src/utils/array.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 4148306..7719def 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -133,6 +133,7 @@ impl<T, const N: usize> Array<T, N> {
 		let len = self.len;
 
 		if start < end {
+			assert!(end <= len, "cannot drain out of bounds");
 			self.len -= end - start;
 		}
 
-- 
2.43.0


From bb05dc8ebc6d05ec60d5651be2158457a7ddd167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 13/15] fix: a leaked or interrupted Array drain leaves no
 moved item in the array

---
 src/utils/array.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 7719def..cb1acf0 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -134,7 +134,9 @@ impl<T, const N: usize> Array<T, N> {
 
 		if start < end {
 			assert!(end <= len, "cannot drain out of bounds");
-			self.len -= end - start;
+			// The array owns nothing from `start` on until the items left are put
+			// together, so that nothing is dropped twice if the `Drain` is leaked.
+			self.len = start;
 		}
 
 		Drain {
@@ -144,6 +146,7 @@ impl<T, const N: usize> Array<T, N> {
 			back: end,
 			buffer: &mut self.buffer,
 			len,
+			array_len: &mut self.len,
 		}
 	}
 
@@ -239,6 +242,7 @@ pub struct Drain<'a, T, const N: usize> {
 	back: usize,
 	buffer: &'a mut [MaybeUninit<T>; N],
 	len: usize,
+	array_len: &'a mut usize,
 }
 
 impl<'a, T, const N: usize> Drain<'a, T, N> {
@@ -249,7 +253,8 @@ impl<'a, T, const N: usize> Drain<'a, T, N> {
 				self.start += 1;
 			}
 
-			self.end = self.start
+			self.end = self.start;
+			*self.array_len = self.start;
 		}
 	}
 }
-- 
2.43.0


From 290d3a92c160a29d3a0408c6bc13d2b075ae3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 14/15] fix: escape the items in the labels of the DOT export

Items whose text contains a quote, a backslash, a brace, a bar or an angle
bracket gave a malformed graph.
---
 src/node/internal.rs |  7 ++++++-
 src/node/leaf.rs     |  2 +-
 src/utils/mod.rs     | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 43f82e2..5b8c39e 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -477,7 +477,12 @@ impl<T, S: Storage<T>> Internal<T, S> {
 	{
 		write!(f, "<c0> |")?;
 		for (i, branch) in self.other_children.iter().enumerate() {
-			write!(f, "{{{}|<c{}>}} |", branch.item, i + 1)?;
+			write!(
+				f,
+				"{{{}|<c{}>}} |",
+				crate::utils::DotText(&branch.item),
+				i + 1
+			)?;
 		}
 
 		Ok(())
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index a246012..1d759ca 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -261,7 +261,7 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		T: std::fmt::Display,
 	{
 		for item in &self.items {
-			write!(f, "{{{}}}|", item)?;
+			write!(f, "{{{}}}|", crate::utils::DotText(item))?;
 		}
 
 		Ok(())
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8593fad..cfe154b 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -51,3 +51,38 @@ pub fn binary_search_min<T, Q: ?Sized>(
 		Some((i, eq))
 	}
 }
+
+/// Displays a value as text in a DOT record label.
+///
+/// The characters that have a meaning in a record label, or that would end the
+/// label, are escaped.
+#[cfg(feature = "dot")]
+pub struct DotText<'a, T>(pub &'a T);
+
+#[cfg(feature = "dot")]
+impl<'a, T: std::fmt::Display> std::fmt::Display for DotText<'a, T> {
+	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+		use std::fmt::Write;
+
+		struct Escape<'a, 'f>(&'a mut std::fmt::Formatter<'f>);
+
+		impl<'a, 'f> Write for Escape<'a, 'f> {
+			fn write_str(&mut self, s: &str) -> std::fmt::Result {
+				for part in s.split_inclusive(['\\', '"', '{', '}', '|', '<', '>']) {
+					match part.chars().next_back() {
+						Some(c @ ('\\' | '"' | '{' | '}' | '|' | '<' | '>')) => {
+							self.0.write_str(&part[..part.len() - 1])?;
+							self.0.write_char('\\')?;
+							self.0.write_char(c)?;
+						}
+						_ => self.0.write_str(part)?,
+					}
+				}
+
+				Ok(())
+			}
+		}
+
+		write!(Escape(f), "{}", self.0)
+	}
+}
-- 
2.43.0


From 8ac08a72f571cec186bd3d8e5b7115c8853bfc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 15/15] fix: keep the length right when the storage panics
 during an insertion

---
 src/lib.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ceb9b01..637f4a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -309,9 +309,9 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 		addr: Option<Address<S::Node>>,
 		item: T,
 	) -> Option<Address<S::Node>> {
-		let (root, addr) = self.nodes.insert_at(self.root, addr, item);
-		self.root = root;
-		self.len += 1;
+		let guard = Recount(self);
+		let (root, addr) = guard.0.nodes.insert_at(guard.0.root, addr, item);
+		guard.inserted(root);
 		addr
 	}
 
@@ -345,11 +345,12 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 		item: T,
 		opt_right_id: Option<S::Node>,
 	) -> Option<Address<S::Node>> {
-		let (root, addr) = self
+		let guard = Recount(self);
+		let (root, addr) = guard
+			.0
 			.nodes
-			.insert_exactly_at(self.root, addr, item, opt_right_id);
-		self.root = root;
-		self.len += 1;
+			.insert_exactly_at(guard.0.root, addr, item, opt_right_id);
+		guard.inserted(root);
 		addr
 	}
 
@@ -418,10 +419,7 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 		match self.address_of(cmp, &item) {
 			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),
 			Err(addr) => {
-				let (root, _) =
-					unsafe { self.nodes.insert_exactly_at(self.root, addr, item, None) };
-				self.root = root;
-				self.len += 1;
+				unsafe { self.insert_exactly_at(addr, item, None) };
 				None
 			}
 		}
@@ -592,6 +590,28 @@ impl<T, S: Storage<T>> Drop for RawBTree<T, S> {
 	}
 }
 
+/// Counts the items of the tree again if the storage panics in the middle of an
+/// insertion, as the items that were on the move are then lost.
+struct Recount<'a, T, S: Storage<T>>(&'a mut RawBTree<T, S>);
+
+impl<'a, T, S: Storage<T>> Recount<'a, T, S> {
+	/// The insertion succeeded.
+	fn inserted(self, root: Option<S::Node>) {
+		self.0.root = root;
+		self.0.len += 1;
+		std::mem::forget(self)
+	}
+}
+
+impl<'a, T, S: Storage<T>> Drop for Recount<'a, T, S> {
+	fn drop(&mut self) {
+		let mut len = 0;
+		self.0
+			.visit_from_leaves(|id| len += unsafe { self.0.nodes.get(id) }.item_count());
+		self.0.len = len
+	}
+}
+
 impl<T: Clone, S: Storage<T>> Clone for RawBTree<T, S> {
 	fn clone(&self) -> Self {
 		unsafe fn clone_node<T: Clone, S: Storage<T>>(
-- 
2.43.0

