//! Several trees in one storage, driven through the operations of the storage.
use crate::arena::{with_room, St, FULL};
use crate::ctx::*;
use crate::fams::*;
use crate::out::*;
use crate::tok::*;
use raw_btree::node::internal::Branch;
use raw_btree::node::{InternalNode, LeafNode};
use raw_btree::storage::Dropper;
use raw_btree::{Address, Node, M};
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;

const MIN: usize = M / 2 - 1;

struct Forest<S: St> {
	c: Ctx<S>,
	st: ManuallyDrop<S>,
	roots: BTreeMap<i64, Option<S::Node>>,
	r: Rng,
}

impl<S: St> Drop for Forest<S> {
	fn drop(&mut self) {
		if !self.c.dead {
			unsafe { ManuallyDrop::drop(&mut self.st) }
		}
	}
}

impl<S: St> Forest<S> {
	fn begin(p: &P, seed: u64) -> Forest<S> {
		let c = Ctx::begin("forest", p.obs | DUMP);
		Forest { c, st: ManuallyDrop::new(S::default()), roots: BTreeMap::new(), r: Rng::new(seed) }
	}

	fn dump(&self, h: i64) -> Dump<S> {
		Dump::from(self.roots[&h], &|id| unsafe { self.st.get(id) })
	}

	/// The content by walking from item to item.
	fn walk(&self, h: i64, forwards: bool) -> Vec<It> {
		let mut v = Vec::new();
		let Some(mut id) = self.roots[&h] else { return v };
		unsafe {
			loop {
				let node = self.st.get(id);
				match node.child_id_opt(if forwards { 0 } else { node.item_count() }) {
					Some(c) => id = c,
					None => break,
				}
			}
			let mut a = Some(Address::new(id, if forwards { 0 } else { self.st.get(id).item_count() - 1 }.into()));
			while let Some(x) = a {
				match self.st.get(x.node).item(x.offset) {
					Some(t) if v.len() < 5000 => v.push(t.show()),
					_ => break,
				}
				a = if forwards { self.st.next_item_address(x) } else { self.st.previous_item_address(x) };
			}
		}
		if !forwards {
			v.reverse()
		}
		v
	}

	fn ids(d: &Dump<S>) -> Vec<i64> {
		d.ids.iter().map(|i| S::code(*i)).collect()
	}

	/// Ends an event, with the address that the call returned, if it does.
	fn done(&mut self, ev: Ev, h: i64, ra: Option<Option<Addr<S>>>) {
		let ev = self.c.effects(ev);
		let r = catch(|| {
			let mut ev = ev;
			if self.roots.contains_key(&h) {
				let d = self.dump(h);
				ev = ev.items("s", &self.walk(h, true)).items("s2", &self.walk(h, false)).raw("t", d.json());
				if let Some(ra) = ra {
					ev = ev.ints("ra", &d.enc_opt(ra))
				}
				if self.c.obs & STORE != 0 {
					ev = ev.ints("ri", &Self::ids(&d)).b("rbad", d.bad)
				}
			}
			if self.c.obs & OTHERS != 0 {
				let o = list(self.roots.keys().filter(|k| **k != h), |k| format!("[{},{}]", k, self.dump(*k).json()));
				ev = ev.raw("o", o)
			}
			ev
		});
		match r {
			Ok(ev) => {
				ev.emit();
				self.c.reset_logs()
			}
			Err(m) => {
				self.c.dead = true;
				Ev::new("lookfail").s("px", &m).emit()
			}
		}
	}

	fn call<R>(&mut self, ev: Ev, f: impl FnOnce(&mut S, &mut BTreeMap<i64, Option<S::Node>>) -> R) -> Option<(R, Ev)> {
		if self.c.dead {
			return None;
		}
		let (st, roots) = (&mut self.st, &mut self.roots);
		match self.c.run(|_| f(st, roots)) {
			Ok(r) => Some((r, ev)),
			Err(m) => {
				self.c.note_panic(ev, m);
				None
			}
		}
	}

	fn new_tree(&mut self, h: i64) {
		self.roots.insert(h, None);
		if let Some((_, ev)) = self.call(Ev::new("new").n("h", h), |_, _| ()) {
			self.done(ev, h, None)
		}
	}

	/// A tree made by hand, level by level.
	fn build(&mut self, h: i64, levels: usize, root_items: usize, fill: usize, keys: &mut i64) {
		fn go<S: St>(st: &mut S, levels: usize, items: usize, fill: usize, r: &mut Rng, made: &mut Vec<It>, keys: &mut i64) -> S::Node {
			let mut item = |made: &mut Vec<It>| {
				*keys += 10;
				let x = Tok::new(*keys);
				made.push(x.show());
				x
			};
			let node = if levels == 1 {
				if items == 1 && r.chance(1, 2) {
					Node::leaf(None, item(made))
				} else {
					Node::Leaf(LeafNode::new(None, (0..items).map(|_| item(made)).collect()))
				}
			} else {
				let most = if levels == 2 { M } else { M - 1 };
				let kid = |r: &mut Rng| match fill {
					0 => MIN,
					1 => most,
					_ => MIN + r.below(most - MIN + 1),
				};
				let n = kid(r);
				let first = go::<S>(st, levels - 1, n, fill, r, made, keys);
				let mut branches = Vec::new();
				for _ in 0..items {
					*keys += 10;
					let item = Tok::new(*keys);
					made.push(item.show());
					let n = kid(r);
					branches.push(Branch { item, child: go::<S>(st, levels - 1, n, fill, r, made, keys) })
				}
				if branches.len() == 1 && r.chance(1, 2) {
					let b = branches.pop().unwrap();
					Node::binary(None, first, b.item, b.child)
				} else {
					Node::Internal(InternalNode::new(None, first, branches.into_iter().collect()))
				}
			};
			if levels == 1 && r.chance(1, 2) {
				st.allocate_node(node)
			} else {
				unsafe { st.insert_node(node) }
			}
		}
		let mut r = Rng::new(self.r.next());
		let mut made = Vec::new();
		let m = &mut made;
		let got = self.call(Ev::new("build").n("h", h), |st, roots| {
			let root = go::<S>(st, levels, root_items, fill, &mut r, m, keys);
			roots.insert(h, Some(root));
		});
		if let Some((_, ev)) = got {
			// what was put in, and what is found
			let ev = self.c.effects(ev.items("s", &made));
			let d = self.dump(h);
			let mut ev = ev.items("s2", &self.walk(h, true)).items("sd", &self.walk(h, false)).raw("t", d.json());
			if self.c.obs & STORE != 0 {
				ev = ev.ints("ri", &Self::ids(&d)).b("rbad", d.bad)
			}
			ev.emit();
			self.c.reset_logs()
		}
	}

	/// A tree made by a history that is not recorded.
	fn shape(&mut self, h: i64, hist: &Hist, keys: &[i64]) {
		let sink = set_sink(Sink::Mem(Vec::new()));
		self.new_tree(h);
		for (i, (ins, _)) in hist.iter().enumerate() {
			if *ins {
				self.insert(h, keys[i])
			} else {
				let d = self.dump(h);
				let key = |a: &[i64; 2]| d.nodes[a[0] as usize - 1].i[a[1] as usize][0];
				if let Some(a) = d.addrs().into_iter().find(|a| a[1] >= 0 && a[1] < d.count(*a) && key(a) == keys[i]) {
					drop(self.remove_at(h, a))
				}
			}
			if self.c.dead {
				break;
			}
		}
		set_sink(sink);
		let d = self.dump(h);
		let mut ev = Ev::new("given").n("h", h).raw("t", d.json()).items("s", &d.inorder());
		if self.c.obs & (STORE | MOVES) != 0 {
			ev = ev.ints("ri", &Self::ids(&d))
		}
		if self.c.dead || d.bad {
			self.c.dead = true;
			ev = ev.s("px", "a history of insertions and removals went wrong")
		}
		self.c.reset_logs();
		ev.emit()
	}

	// ---- by key ----

	fn insert(&mut self, h: i64, k: i64) {
		let x = Tok::new(k);
		let ev = Ev::new("insert").n("h", h).item("x", x.show());
		let got = self.call(ev, |st, roots| unsafe {
			let root = roots[&h];
			match root.map(|id| st.address_in(id, cmp, &x)) {
				Some(Ok(a)) => Some(st.replace_at(a, x)),
				Some(Err(a)) => {
					let (root, _) = st.insert_exactly_at(root, Some(a), x, None);
					roots.insert(h, root);
					None
				}
				None => {
					let (root, _) = st.insert_at(None, None, x);
					roots.insert(h, root);
					None
				}
			}
		});
		if let Some((r, ev)) = got {
			let ev = self.c.effects(ev.opt("r", r.as_ref().map(Tok::show)));
			drop(r);
			self.c.reset_logs();
			self.done2(ev, h)
		}
	}

	/// The effects are already noted.
	fn done2(&mut self, ev: Ev, h: i64) {
		let obs = self.c.obs;
		self.c.obs = obs & !(DROPS | STORE | MOVES);
		let ev = if obs & STORE != 0 && self.roots.contains_key(&h) {
			let d = self.dump(h);
			ev.ints("ri", &Self::ids(&d)).b("rbad", d.bad)
		} else {
			ev
		};
		self.done(ev, h, None);
		self.c.obs = obs
	}

	fn get(&mut self, h: i64, k: i64) {
		let got = self.call(Ev::new("get").n("h", h).n("k", k), |st, roots| unsafe {
			roots[&h].and_then(|id| st.address_in(id, kcmp, &k).ok()).and_then(|a| st.get(a.node).item(a.offset)).map(Tok::show)
		});
		if let Some((r, ev)) = got {
			self.done(ev.opt("r", r), h, None)
		}
	}

	/// Searches from every node.
	fn search_below(&mut self, h: i64, keys: &[i64]) {
		let d = self.dump(h);
		let got = self.call(Ev::new("addr_below").n("h", h), |st, _| unsafe {
			let mut rows = Vec::new();
			for (x, id) in d.ids.iter().enumerate() {
				for k in keys {
					let (hit, a) = match st.address_in(*id, kcmp, k) {
						Ok(a) => (1, a),
						Err(a) => (0, a),
					};
					let a = d.enc(a);
					rows.push([x as i64 + 1, *k, hit, a[0], a[1]])
				}
			}
			rows
		});
		if let Some((rows, ev)) = got {
			let ev = ev.raw("rows", list(rows.iter(), |r| jints(r)));
			self.done(ev, h, None)
		}
	}

	// ---- by address ----

	fn insert_at(&mut self, h: i64, a: Option<[i64; 2]>, x: Tok, exact: bool) {
		let d = self.dump(h);
		let addr = a.map(|a| d.dec(a));
		let a = a.map(|a| a.to_vec()).unwrap_or_default();
		let ev = Ev::new(if exact { "insert_ex" } else { "insert_at" }).n("h", h).ints("a", &a).item("x", x.show());
		let got = self.call(ev, |st, roots| unsafe {
			let (root, ra) = if exact { st.insert_exactly_at(roots[&h], addr, x, None) } else { st.insert_at(roots[&h], addr, x) };
			roots.insert(h, root);
			ra
		});
		if let Some((ra, ev)) = got {
			self.done(ev, h, Some(ra))
		}
	}

	/// Inserts while there is room for so many nodes only.
	fn insert_full(&mut self, h: i64, a: Option<[i64; 2]>, x: Tok, room: usize) {
		let d = self.dump(h);
		let addr = a.map(|a| d.dec(a));
		let a = a.map(|a| a.to_vec()).unwrap_or_default();
		let told = |name: &str| Ev::new(name).n("h", h).ints("a", &a).item("x", x.show());
		let (good, cut) = (told("insert_at"), told("insert_at_f"));
		self.c.reset_logs();
		let (st, roots) = (&mut self.st, &mut self.roots);
		let (r, out) = with_room(room, || {
			catch(|| unsafe {
				let (root, ra) = st.insert_at(roots[&h], addr, x);
				roots.insert(h, root);
				ra
			})
		});
		match r {
			Ok(ra) => self.done(good, h, Some(ra)),
			// the root is what it was
			Err(m) if out && m.contains(FULL) => self.done(cut, h, None),
			Err(m) => self.c.note_panic(good, m),
		}
	}

	fn remove_at(&mut self, h: i64, a: [i64; 2]) -> Option<Tok> {
		let d = self.dump(h);
		let addr = d.dec(a);
		let ev = Ev::new("remove_at").n("h", h).ints("a", &a);
		let (r, ev) = self.call(ev, |st, roots| unsafe {
			let r = st.remove_at(roots[&h], addr);
			if let Some(r) = &r {
				roots.insert(h, r.new_root);
			}
			r.map(|r| (r.item, r.new_addr))
		})?;
		match r {
			Some((t, ra)) => {
				self.done(ev.opt("r", Some(t.show())), h, Some(ra));
				Some(t)
			}
			None => {
				self.done(ev.opt("r", None), h, Some(None));
				None
			}
		}
	}

	fn replace_at(&mut self, h: i64, a: [i64; 2], x: Tok) -> Option<Tok> {
		let d = self.dump(h);
		let addr = d.dec(a);
		let ev = Ev::new("replace_at").n("h", h).ints("a", &a).item("x", x.show());
		let (r, ev) = self.call(ev, |st, _| unsafe { st.replace_at(addr, x) })?;
		self.done(ev.opt("r", Some(r.show())), h, None);
		Some(r)
	}

	fn write_at(&mut self, h: i64, a: [i64; 2], w: i64) {
		let d = self.dump(h);
		let addr = d.dec(a);
		let ev = Ev::new("write_at").n("h", h).ints("a", &a).n("w", w);
		let got = self.call(ev, |st, _| unsafe {
			st.get_mut(addr.node).item_mut(addr.offset).map(|t| {
				let r = t.show();
				t.v = w;
				r
			})
		});
		if let Some((r, ev)) = got {
			self.done(ev.opt("r", r), h, None)
		}
	}

	/// Takes the last item, where its leaf can do without.
	fn remove_end(&mut self, h: i64) -> Option<Tok> {
		let d = self.dump(h);
		let mut n = 1;
		while let Some(c) = d.nodes.get(n - 1)?.c.last() {
			n = *c
		}
		if d.nodes[n - 1].i.len() <= if n == 1 { 1 } else { MIN } {
			return None;
		}
		let got = self.call(Ev::new("remove_end").n("h", h), |st, roots| unsafe { st.remove_rightmost_leaf_of(roots[&h].unwrap()) });
		let ((t, leaf), ev) = got?;
		if leaf != d.ids[n - 1] {
			self.c.note_panic(ev, "not the rightmost leaf".into());
			return Some(t);
		}
		self.done(ev.opt("r", Some(t.show())), h, None);
		Some(t)
	}

	// ---- whole trees ----

	/// Puts tree `h2` into `h` behind a new item, at an address one level above the root of `h2`.
	fn graft(&mut self, h: i64, a: [i64; 2], x: Tok, h2: i64) {
		let d = self.dump(h);
		let addr = d.dec(a);
		let ev = Ev::new("graft").n("h", h).ints("a", &a).item("x", x.show()).n("h2", h2);
		let got = self.call(ev, |st, roots| unsafe {
			let child = roots[&h2].unwrap();
			st.get_mut(child).set_parent(Some(addr.node));
			let (root, ra) = st.insert_exactly_at(roots[&h], Some(addr), x, Some(child));
			roots.insert(h, root);
			roots.remove(&h2);
			ra
		});
		if let Some((ra, ev)) = got {
			self.done(ev, h, Some(ra))
		}
	}

	/// Two trees under a new root.
	fn join(&mut self, h: i64, x: Tok, h2: i64) {
		let ev = Ev::new("graft").n("h", h).ints("a", &[]).item("x", x.show()).n("h2", h2);
		let got = self.call(ev, |st, roots| unsafe {
			let (a, b) = (roots[&h].unwrap(), roots.remove(&h2).unwrap().unwrap());
			let id = st.insert_node(Node::binary(None, a, x, b));
			roots.insert(h, Some(id));
			Address::new(id, 0.into())
		});
		if let Some((ra, ev)) = got {
			self.done(ev, h, Some(Some(ra)))
		}
	}

	/// The root is released: its items are given back, its children are trees.
	fn burst(&mut self, h: i64, hs: &[i64]) -> Vec<Tok> {
		let ev = Ev::new("burst").n("h", h).ints("hs", hs);
		let got = self.call(ev, |st, roots| unsafe {
			let id = roots.remove(&h).unwrap().unwrap();
			let mut node = st.release_node(id);
			let kids: Vec<S::Node> = node.children().collect();
			for (k, id) in hs.iter().zip(&kids) {
				st.get_mut(*id).set_parent(None);
				roots.insert(*k, Some(*id));
			}
			let mut seps = Vec::new();
			// with its items taken out by the primitive for that, as far as it goes
			while let Ok((item, _)) = match &mut node {
				Node::Internal(n) => n.pop_left(),
				Node::Leaf(_) => unreachable!(),
			} {
				seps.push(item)
			}
			if let Node::Internal(n) = &mut node {
				while n.item_count() > 0 {
					seps.push(n.remove(0.into()).1)
				}
			}
			seps
		});
		let Some((seps, ev)) = got else { return Vec::new() };
		let ev = self.c.effects(ev.items("r", &seps.iter().map(Tok::show).collect::<Vec<_>>()));
		let dumps: Vec<Dump<S>> = hs.iter().map(|k| self.dump(*k)).collect();
		let mut ev = ev.raw("ts", list(dumps.iter(), |d| d.json()));
		if self.c.obs & STORE != 0 {
			ev = ev.raw("ris", list(dumps.iter(), |d| jints(&Self::ids(d))))
		}
		ev.emit();
		self.c.reset_logs();
		seps
	}

	fn drop_tree(&mut self, h: i64) {
		let release = self.r.chance(1, 2);
		let got = self.call(Ev::new("drop").n("h", h), |st, roots| unsafe {
			let Some(root) = roots.remove(&h).unwrap() else { return };
			let mut ids = Vec::new();
			st.get(root).visit_from_leaves(st, |id| ids.push(id));
			ids.push(root);
			match st.start_dropping() {
				Some(mut d) if !release => ids.into_iter().for_each(|id| d.drop_node(id)),
				_ => ids.into_iter().for_each(|id| drop(st.release_node(id))),
			}
		});
		if let Some((_, ev)) = got {
			self.done(ev, h, None)
		}
	}

	/// Fully read, and the trees gone, in some order.
	fn end(&mut self) {
		while !self.c.dead && !self.roots.is_empty() {
			let hs: Vec<i64> = self.roots.keys().copied().collect();
			let h = hs[self.r.below(hs.len())];
			self.drop_tree(h)
		}
	}

	fn spare(&self) -> Option<i64> {
		(1..=12).find(|h| !self.roots.contains_key(h))
	}
}

fn levels<S: St>(d: &Dump<S>, mut n: usize) -> usize {
	let mut l = 1;
	while let Some(c) = d.nodes[n - 1].c.first() {
		n = *c;
		l += 1
	}
	l
}

/// Every graft into every shape.
pub fn grafts<S: St>(p: &P) {
	for (no, hist) in p.corpus.iter().enumerate() {
		let mut f = Forest::<S>::begin(p, p.seed * 1000 + no as u64);
		let keys = keys_of(hist);
		let mut keep = 100_000;
		// the shape, by its history; then each graft into it
		let mut at = 0;
		loop {
			for h in f.roots.keys().copied().collect::<Vec<_>>() {
				f.drop_tree(h)
			}
			if f.c.dead {
				break;
			}
			f.shape(1, hist, &keys);
			if f.c.dead {
				break;
			}
			let d = f.dump(1);
			let spots: Vec<[i64; 2]> = d.addrs().into_iter().filter(|a| a[1] >= 0 && !d.leaf(*a)).collect();
			if at == 0 && p.has("search") {
				let ks: Vec<i64> = d.inorder().iter().flat_map(|x| [x[0] - 5, x[0]]).collect();
				f.search_below(1, &ks)
			}
			// two sizes of graft each, then a join, then a burst
			let n = spots.len() * 2;
			if at < n {
				let a = spots[at / 2];
				let l = levels(&d, a[0] as usize) - 1;
				let most = if l == 1 { M } else { M - 1 };
				f.build(2, l, if at % 2 == 0 { MIN } else { most }, at % 2, &mut keep);
				if !f.c.dead {
					f.graft(1, a, Tok::new(1), 2)
				}
			} else if at == n && !d.ids.is_empty() && d.nodes[0].i.len() >= MIN {
				let l = levels(&d, 1);
				f.build(2, l, MIN, 2, &mut keep);
				f.build(3, l, MIN + 1, 2, &mut keep);
				if !f.c.dead {
					f.join(1, Tok::new(1), 2);
				}
				if !f.c.dead {
					f.insert_at(1, Some([1, 0]), Tok::new(1), false)
				}
			} else if at == n + 1 && !d.ids.is_empty() && !d.nodes[0].c.is_empty() {
				let hs: Vec<i64> = (1..=d.nodes[0].c.len() as i64).collect();
				drop(f.burst(1, &hs));
				for h in hs {
					if !f.c.dead {
						let a = f.dump(h).addrs()[1];
						f.remove_at(h, a);
					}
				}
			} else if at > n {
				break;
			}
			at += 1;
			if f.c.dead {
				break;
			}
		}
		f.end()
	}
}

/// Random histories over a few trees in one storage.
pub fn forest<S: St>(p: &P) {
	for s in 0..p.count {
		let mut f = Forest::<S>::begin(p, p.seed * 1000 + 700 + s as u64);
		// sorted: the trees are looked into by key
		let sorted = s % 3 == 0;
		let mut keep = 100_000;
		let mut hand: Vec<Tok> = Vec::new();
		let target = [8, 25, 60][s / 3 % 3];
		f.new_tree(1);
		for i in 0..p.n {
			if f.c.dead {
				break;
			}
			let hs: Vec<i64> = f.roots.keys().copied().collect();
			if hs.is_empty() {
				f.new_tree(1);
				continue;
			}
			let h = hs[f.r.below(hs.len())];
			let d = f.dump(h);
			if d.bad {
				break;
			}
			let size: usize = d.nodes.iter().map(|n| n.i.len()).sum();
			let addrs = d.addrs();
			let some = |f: &mut Forest<S>, hand: &mut Vec<Tok>| match hand.pop() {
				Some(t) if f.r.chance(2, 3) => t,
				_ => Tok::new(1),
			};
			match f.r.below(if sorted { 14 } else { 30 }) {
				0 if hs.len() < 4 => {
					let g = f.spare().unwrap();
					f.new_tree(g)
				}
				1 | 2 if hs.len() > 1 && f.r.chance(1, 8) => f.drop_tree(h),
				3 if sorted => {
					let mut ks: Vec<i64> = d.inorder().iter().map(|x| x[0]).collect();
					ks.extend([5, h * 1000, 55 + 10 * i as i64]);
					ks.truncate(12);
					if !d.ids.is_empty() {
						f.search_below(h, &ks)
					}
				}
				x if sorted => {
					let k = 10 * f.r.below(2 * target) as i64;
					match x {
						4 => f.get(h, k),
						5..=7 if size > target && !d.ids.is_empty() => {
							let a = addrs[f.r.below(addrs.len())];
							drop(f.remove_at(h, a))
						}
						_ => f.insert(h, k),
					}
				}
				3..=9 => {
					if d.ids.is_empty() {
						let t = some(&mut f, &mut hand);
						f.insert_at(h, None, t, i % 2 == 0)
					} else {
						let a = addrs[f.r.below(addrs.len())];
						if a[1] >= 0 && p.only.contains("full") && f.r.chance(1, 2) {
							let t = some(&mut f, &mut hand);
							// a leaf that must be split, if there is one
							let full: Vec<[i64; 2]> = addrs.iter().filter(|a| a[1] >= 0 && d.leaf(**a) && d.count(**a) >= M as i64).copied().collect();
							let a = if full.is_empty() { a } else { full[f.r.below(full.len())] };
							let room = if f.r.chance(1, 2) { f.r.below(3) } else { 1000 };
							f.insert_full(h, Some(a), t, room)
						} else if a[1] >= 0 {
							let t = some(&mut f, &mut hand);
							f.insert_at(h, Some(a), t, d.leaf(a) && i % 2 == 0)
						}
					}
				}
				10..=15 if !d.ids.is_empty() && (size > target || f.r.chance(1, 3)) => {
					let a = addrs[f.r.below(addrs.len())];
					hand.extend(f.remove_at(h, a))
				}
				16 if !d.ids.is_empty() => {
					let a = addrs[f.r.below(addrs.len())];
					if a[1] >= 0 && a[1] < d.count(a) {
						let t = some(&mut f, &mut hand);
						hand.extend(f.replace_at(h, a, t))
					}
				}
				17 if !d.ids.is_empty() => {
					let a = addrs[f.r.below(addrs.len())];
					f.write_at(h, a, i as i64)
				}
				18 => hand.extend(f.remove_end(h)),
				19 if hs.len() < 5 && size > 0 => {
					let l = levels(&d, 1);
					let g = f.spare().unwrap();
					let l = if size > 200 { 1 } else { (1 + f.r.below(l)).min(if M < 6 { 4 } else { 3 }) };
					let n = if l > 2 { MIN } else { MIN + f.r.below(M - 1 - MIN + 1) };
					let fill = if l > 2 { 0 } else { f.r.below(3) };
					f.build(g, l, n, fill, &mut keep)
				}
				20..=28 if hs.len() > 1 && size > 0 && size < 300 => {
					// perhaps a tree that fits somewhere in this one
					let g = hs[f.r.below(hs.len())];
					if g == h {
						continue;
					}
					let e = f.dump(g);
					if e.ids.is_empty() || e.bad || e.nodes[0].i.len() < MIN {
						continue;
					}
					let lg = levels(&e, 1);
					let spots: Vec<[i64; 2]> =
						addrs.iter().filter(|a| a[1] >= 0 && levels(&d, a[0] as usize) == lg + 1).copied().collect();
					if !spots.is_empty() {
						let a = spots[f.r.below(spots.len())];
						let t = some(&mut f, &mut hand);
						f.graft(h, a, t, g)
					} else if levels(&d, 1) == lg && d.nodes[0].i.len() >= MIN {
						let t = some(&mut f, &mut hand);
						f.join(h, t, g)
					}
				}
				29 if f.r.chance(1, 2) && hs.len() < 3 && !d.ids.is_empty() && !d.nodes[0].c.is_empty() && d.nodes[0].c.len() < 6 => {
					let mut gs: Vec<i64> = (1..=12).filter(|g| *g == h || !hs.contains(g)).collect();
					gs.truncate(d.nodes[0].c.len());
					hand.extend(f.burst(h, &gs))
				}
				_ => (),
			}
			hand.truncate(20);
		}
		f.end();
		if f.c.dead {
			std::mem::forget(hand)
		}
	}
}
