"""Development: rewrites that keep the behaviour, applied to a clone of /repo (cwd); every check was quiet on them."""
import re,sys
def sub(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b) if n==0 else s.replace(a,b,n); open(f,'w').write(s)
B='src/balancing.rs'; L='src/lib.rs'; S='src/storage.rs'; I='src/node/internal.rs'; F='src/node/leaf.rs'; N='src/node/mod.rs'; U='src/utils/mod.rs'; A='src/utils/array.rs'
# rotations the other way round, merge with the right sibling if any
sub(B,'''if try_rotate_left(tree, parent_id, index, &mut addr)
							|| try_rotate_right(tree, parent_id, index, &mut addr)''','''if try_rotate_right(tree, parent_id, index, &mut addr)
							|| try_rotate_left(tree, parent_id, index, &mut addr)''')
sub(B,'''	let (offset, left_id, right_id, separator, balance) = if deficient_child_index > 0 {
		// merge with left sibling
		tree.get_mut(id).merge(deficient_child_index - 1)
	} else {
		// merge with right sibling
		tree.get_mut(id).merge(deficient_child_index)
	};
''','''	let node = tree.get_mut(id);
	let last = node.child_count() - 1;
	let (offset, left_id, right_id, separator, balance) =
		node.merge(if deficient_child_index == last { last - 1 } else { deficient_child_index });
''')
# splits: median of even nodes the other way
sub(I,'let median_i = (self.other_children.len() - 1) / 2;','let median_i = self.other_children.len() / 2;')
# search
s=open(U).read(); a=s.index('	if sorted_slice.is_empty()'); b=s.index('/// Displays')
s=s[:a]+'''	let mut lo = 0;
	let mut hi = sorted_slice.len();
	let mut found = false;
	while lo < hi {
		let mid = lo + (hi - lo) / 2;
		match cmp(&sorted_slice[mid], key) {
			Ordering::Greater => hi = mid,
			Ordering::Equal => {
				found = true;
				lo = mid + 1;
				break;
			}
			Ordering::Less => lo = mid + 1,
		}
	}
	lo.checked_sub(1).map(|i| (i, found))
}

'''+s[b:]
open(U,'w').write(s)
# iterators
sub(L,'''				if self.len > 0 {
					self.len -= 1;

					let item = self.btree.get_at(addr).unwrap();
					self.addr = self.btree.nodes.next_item_address(addr);
					Some(item)
				} else {
					None
				}''','''				if self.len == 0 {
					return None;
				}
				self.addr = self.btree.nodes.next_item_address(addr);
				self.len -= 1;
				self.btree.get_at(addr)''')
# get via match
sub(L,'''		self.address_of(cmp, key)
			.ok()
			.and_then(|addr| unsafe { self.get_at(addr) })''','''		let mut id = self.root?;
		loop {
			let node = unsafe { self.nodes.get(id) };
			match node.offset_of(&cmp, key) {
				Ok(offset) => return node.item(offset),
				Err((_, child)) => id = child?,
			}
		}''')
# remove through remove_at
sub(L,'''				let r = unsafe { self.nodes.remove_at(self.root, addr).unwrap() };
				self.root = r.new_root;
				self.len -= 1;
				Some(r.item)''','''				unsafe { self.remove_at(addr) }.map(|(item, _)| item)''')
# insert: replaced in place
sub(L,'''			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),''','''			Ok(addr) => unsafe { self.get_mut_at(addr) }.map(|old| std::mem::replace(old, item)),''')
# clear: collect, then drop
sub(L,'''					let node = self.nodes.get(id);
					node.visit_from_leaves(&self.nodes, |id| dropper.drop_node(id));
					dropper.drop_node(id)''','''					let mut ids = vec![id];
					let mut i = 0;
					while i < ids.len() {
						ids.extend(self.nodes.get(ids[i]).children());
						i += 1;
					}
					for id in ids {
						dropper.drop_node(id)
					}''')
# removal from an internal node: the item first, the address afterwards
sub(S,'''				let (separator, leaf_id) = self.remove_rightmost_leaf_of(left_child_id);
				let item = self.get_mut(addr.node).replace(addr.offset, separator);''','''				let mut leaf_id = left_child_id;
				while let Some(id) = self.get(leaf_id).child_id_opt(self.get(leaf_id).item_count()) {
					leaf_id = id
				}
				let separator = self.get_mut(leaf_id).remove_rightmost_leaf().ok().unwrap();
				let item = self.replace_at(addr, separator);''')
sub(S,'''		match addr {
			Some(addr) => {
				self.get_mut(addr.node)
					.insert(addr.offset, item, opt_right_id);
				rebalance(self, root, addr.node, addr)
			}
			None => {''','''		match addr {
			Some(addr) => {
				let node = self.get_mut(addr.node);
				node.insert(addr.offset, item, opt_right_id);
				if node.is_overflowing() {
					rebalance(self, root, addr.node, addr)
				} else {
					(root, Some(addr))
				}
			}
			None => {''')
# set_parent before allocation where possible; children visited in a loop
sub(S,'''		let children: Array<Self::Node, M> = node.children().collect();
		let id = self.allocate_node(node);
		for child_id in children {
			self.get_mut(child_id).set_parent(Some(id));
		}
''','''		let is_leaf = node.child_id_opt(0).is_none();
		let id = self.allocate_node(node);
		if !is_leaf {
			for i in 0..self.get(id).child_count() {
				let child_id = self.get(id).child_id(i);
				self.get_mut(child_id).set_parent(Some(id));
			}
		}
''')
sub(S,'''	utils::Array,
	Node, M,''','''	Node,''')
# visits: siblings from the right
sub(N,'''			for c in node.children() {
				let child = unsafe { nodes.get(c) };
				child.visit_from_leaves_with(nodes, f);
				f(c);
			}''','''			for i in (0..node.child_count()).rev() {
				let c = node.child_id(i);
				let child = unsafe { nodes.get(c) };
				child.visit_from_leaves_with(nodes, f);
				f(c);
			}''')
# navigation helper
sub(S,'''	unsafe fn next_back_address(
		&self,
		mut addr: Address<Self::Node>,
	) -> Option<Address<Self::Node>> {
		loop {
			let node = self.get(addr.node);
			let index = match addr.offset.value() {
				Some(offset) => offset + 1,
				None => 0,
			};

			if index <= node.item_count() {
				match node.child_id_opt(index) {
					Some(child_id) => {
						addr.offset = Offset::before();
						addr.node = child_id;
					}
					None => {
						addr.offset = index.into();
						break;
					}
				}
			} else {
				match node.parent() {
					Some(parent_id) => {
						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						addr.node = parent_id;
						break;
					}
					None => return None,
				}
			}
		}

		Some(addr)''','''	unsafe fn next_back_address(
		&self,
		addr: Address<Self::Node>,
	) -> Option<Address<Self::Node>> {
		let index = addr.offset.value().map_or(0, |offset| offset + 1);
		let node = self.get(addr.node);
		if index > node.item_count() {
			let parent_id = node.parent()?;
			let offset = self.get(parent_id).child_index(addr.node)?;
			return Some(Address::new(parent_id, offset.into()));
		}
		match node.child_id_opt(index) {
			None => Some(Address::new(addr.node, index.into())),
			Some(mut id) => {
				while let Some(child_id) = self.get(id).child_id_opt(0) {
					id = child_id
				}
				Some(Address::new(id, 0.into()))
			}
		}''')
# clone: children first, then items
sub(L,'''					let first = clone_node(old_nodes, new_nodes, None, node.first_child_id());
					let mut branches = Array::new();
					for b in node.branches() {
						branches.push(node::internal::Branch {
							item: b.item.clone(),
							child: clone_node(old_nodes, new_nodes, None, b.child),
						})
					}
''','''					let first = clone_node(old_nodes, new_nodes, None, node.first_child_id());
					let mut branches = Array::new();
					for b in node.branches() {
						let child = clone_node(old_nodes, new_nodes, None, b.child);
						let item = b.item.clone();
						branches.push(node::internal::Branch { item, child })
					}
''')
sub(L,'''	pub fn is_empty(&self) -> bool {
		self.root.is_none()''','''	pub fn is_empty(&self) -> bool {
		self.len == 0''')
