//! Drives real trees and records every call: arguments, result, and the
//! observable state after it.
use crate::arena::{self, with_room, St, FULL};
use crate::out::*;
use crate::tok::*;
use raw_btree::node::{Address, Node, Offset};
use raw_btree::{IntoIter, RawBTree};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is observed after each event.
pub const CONTENT: u32 = 1;
pub const LEN: u32 = 2;
pub const ENDS: u32 = 4;
pub const DUMP: u32 = 8;
pub const DROPS: u32 = 16;
pub const STORE: u32 = 32;
/// Storage events alone, without the nodes reachable.
pub const MOVES: u32 = 512;
pub const OTHERS: u32 = 64;
pub const VALID: u32 = 128;
/// The structures dumped must be balanced, and not only hold the content.
pub const STRICT: u32 = 256;

const CAP: usize = 6000;

thread_local! {
	pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".into()
		};
		let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC.with(|p| *p.borrow_mut() = m + &at);
	}));
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
		std::mem::forget(e);
		PANIC.with(|p| p.borrow().clone())
	})
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
	pub fn new(seed: u64) -> Rng {
		Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % n.max(1) as u64) as usize
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
}

pub struct NodeDump {
	pub p: usize,
	pub i: Vec<It>,
	pub c: Vec<usize>,
}

/// A tree as a value: nodes in preorder.
pub struct Dump<S: St> {
	pub ids: Vec<S::Node>,
	pub nodes: Vec<NodeDump>,
	pub bad: bool,
	index: HashMap<i64, usize>,
}

pub type Addr<S> = Address<<S as raw_btree::Storage<Tok>>::Node>;

thread_local! {
	static DOTS: Cell<u64> = const { Cell::new(0) };
}

/// Items are displayed with characters that mean something in DOT, or not, while this exists.
struct Decorate;

impl Decorate {
	fn new(on: bool) -> Decorate {
		crate::tok::DECORATED.with(|d| d.set(on));
		Decorate
	}
}

impl Drop for Decorate {
	fn drop(&mut self) {
		crate::tok::DECORATED.with(|d| d.set(false))
	}
}

/// A writer that takes `limit` bytes, `step` at a time and with interruptions, then refuses.
struct Narrow {
	got: Vec<u8>,
	limit: usize,
	step: usize,
	rest: usize,
}

impl std::io::Write for Narrow {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		self.rest += 1;
		if self.rest % 7 == 0 {
			return Err(std::io::ErrorKind::Interrupted.into());
		}
		let n = b.len().min(self.step).min(self.limit - self.got.len());
		if n == 0 && !b.is_empty() {
			return Err(std::io::ErrorKind::QuotaExceeded.into());
		}
		self.got.extend_from_slice(&b[..n]);
		Ok(n)
	}

	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}

pub fn off(o: i64) -> Offset {
	if o < 0 {
		Offset::before()
	} else {
		(o as usize).into()
	}
}

pub fn unoff(o: Offset) -> i64 {
	match o.value() {
		Some(v) => small(v.min(2_000_000_000) as i64),
		None => -1,
	}
}

impl<S: St> Dump<S> {
	pub fn of(tree: &RawBTree<Tok, S>) -> Dump<S> {
		Dump::from(tree.root(), &|id| unsafe { tree.node(id) })
	}

	/// The tree under a node.
	pub fn from<'a>(root: Option<S::Node>, node: &dyn Fn(S::Node) -> &'a Node<Tok, S>) -> Dump<S> {
		let mut d = Dump { ids: Vec::new(), nodes: Vec::new(), bad: false, index: HashMap::new() };
		if let Some(root) = root {
			d.go(node, root, 0);
		}
		d
	}

	fn go<'a>(&mut self, get: &dyn Fn(S::Node) -> &'a Node<Tok, S>, id: S::Node, depth: usize) -> usize {
		if self.bad || self.ids.len() > CAP || depth > 60 || self.find(id) != 0 {
			self.bad = true;
			return 0;
		}
		let node = get(id);
		self.ids.push(id);
		let me = self.ids.len();
		self.index.insert(S::code(id), me);
		let count = node.item_count();
		if count > 100 {
			self.bad = true;
			return me;
		}
		let p = match node.parent() {
			None => 0,
			Some(p) => match self.find(p) {
				0 => 9999,
				x => x,
			},
		};
		let mut i = Vec::new();
		for k in 0..count {
			match node.item(k.into()) {
				Some(t) => i.push(t.show()),
				None => self.bad = true,
			}
		}
		self.nodes.push(NodeDump { p, i, c: Vec::new() });
		let mut c = Vec::new();
		for k in 0..=count {
			if let Some(child) = node.child_id_opt(k) {
				c.push(self.go(get, child, depth + 1));
			}
		}
		if let Some(n) = self.nodes.get_mut(me - 1) {
			n.c = c
		}
		me
	}

	pub fn find(&self, id: S::Node) -> usize {
		self.index.get(&S::code(id)).copied().unwrap_or(0)
	}

	pub fn json(&self) -> String {
		if self.bad {
			return "[{\"p\":9999,\"i\":[],\"c\":[]}]".into();
		}
		list(self.nodes.iter(), |n| {
			let c: Vec<i64> = n.c.iter().map(|c| *c as i64).collect();
			format!("{{\"p\":{},\"i\":{},\"c\":{}}}", n.p, jitems(&n.i), jints(&c))
		})
	}

	/// All valid addresses.
	pub fn addrs(&self) -> Vec<[i64; 2]> {
		let mut r = Vec::new();
		for (x, n) in self.nodes.iter().enumerate() {
			for o in -1..=n.i.len() as i64 {
				r.push([x as i64 + 1, o])
			}
		}
		r
	}

	/// The addresses in the leaves, in the order of the items: one for each gap.
	pub fn addrs_in_order(&self) -> Vec<[i64; 2]> {
		fn go<S: St>(d: &Dump<S>, n: usize, r: &mut Vec<[i64; 2]>) {
			let node = &d.nodes[n - 1];
			if node.c.is_empty() {
				r.extend((0..=node.i.len() as i64).map(|o| [n as i64, o]))
			}
			for c in &node.c {
				go(d, *c as usize, r)
			}
		}
		let mut r = Vec::new();
		if !self.nodes.is_empty() {
			go(self, 1, &mut r)
		}
		r
	}

	pub fn leaf(&self, a: [i64; 2]) -> bool {
		self.nodes[a[0] as usize - 1].c.is_empty()
	}

	pub fn count(&self, a: [i64; 2]) -> i64 {
		self.nodes[a[0] as usize - 1].i.len() as i64
	}

	pub fn dec(&self, a: [i64; 2]) -> Addr<S> {
		Address::new(self.ids[a[0] as usize - 1], off(a[1]))
	}

	pub fn enc(&self, a: Addr<S>) -> Vec<i64> {
		vec![self.find(a.node) as i64, unoff(a.offset)]
	}

	pub fn enc_opt(&self, a: Option<Addr<S>>) -> Vec<i64> {
		a.map(|a| self.enc(a)).unwrap_or_default()
	}

	pub fn height(&self) -> usize {
		if self.bad {
			return 999;
		}
		let mut h = 0;
		let mut n = 1;
		while n > 0 && n <= self.nodes.len() {
			h += 1;
			n = self.nodes[n - 1].c.first().copied().unwrap_or(0);
		}
		h
	}

	pub fn inorder(&self) -> Vec<It> {
		fn go(ns: &[NodeDump], n: usize, out: &mut Vec<It>) {
			let nd = &ns[n - 1];
			for (j, it) in nd.i.iter().enumerate() {
				if let Some(c) = nd.c.get(j) {
					go(ns, *c, out)
				}
				out.push(*it);
			}
			if let Some(c) = nd.c.get(nd.i.len()) {
				go(ns, *c, out)
			}
		}
		let mut out = Vec::new();
		if !self.nodes.is_empty() && !self.bad {
			go(&self.nodes, 1, &mut out)
		}
		out
	}
}

pub struct Ctx<S: St> {
	pub trees: BTreeMap<i64, RawBTree<Tok, S>>,
	pub intos: BTreeMap<i64, IntoIter<Tok, S>>,
	pub obs: u32,
	/// An unexpected panic ended the session.
	pub dead: bool,
	/// Storage events of the last call.
	pend: Cell<Option<Vec<(u8, i64)>>>,
}

impl<S: St> Drop for Ctx<S> {
	fn drop(&mut self) {
		if self.dead {
			std::mem::forget(std::mem::take(&mut self.trees));
			std::mem::forget(std::mem::take(&mut self.intos));
		}
	}
}

/// A comparison giving arbitrary, but reproducible, answers.
pub fn lawless(seed: u64) -> impl Fn() -> Ordering {
	let c = Cell::new(seed);
	move || {
		let mut r = Rng::new(c.get());
		c.set(r.next());
		match c.get() % 5 {
			0 => Ordering::Equal,
			1 | 2 => Ordering::Less,
			_ => Ordering::Greater,
		}
	}
}

impl<S: St> Ctx<S> {
	/// Starts a session: an independent history.
	pub fn begin(fam: &str, obs: u32) -> Ctx<S> {
		ledger(|l| *l = Ledger::default());
		arena::reset_instances();
		Ev::new("begin")
			.n("m", raw_btree::M as i64)
			.s("tag", S::TAG)
			.s("fam", fam)
			.b("strict", obs & STRICT != 0)
			.emit();
		Ctx { trees: BTreeMap::new(), intos: BTreeMap::new(), obs, dead: false, pend: Cell::new(None) }
	}

	pub fn tree(&mut self, h: i64) -> &mut RawBTree<Tok, S> {
		self.trees.get_mut(&h).unwrap()
	}

	pub fn dump(&mut self, h: i64) -> Dump<S> {
		Dump::of(&self.trees[&h])
	}

	fn clear_logs(&self) {
		ledger(|l| {
			l.drops.clear();
			l.clones.clear()
		});
		arena::forget_events();
		self.pend.set(None);
	}

	pub fn reset_logs(&self) {
		self.clear_logs()
	}

	/// Runs a call of the crate.
	pub fn run<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> Result<R, String> {
		self.clear_logs();
		let r = catch(|| f(self));
		self.pend.set(Some(S::events()));
		if r.is_err() {
			self.dead = true
		}
		r
	}

	/// Records the side effects of the call that has just been made.
	pub fn effects(&self, mut ev: Ev) -> Ev {
		let mut drops = ledger(|l| std::mem::take(&mut l.drops));
		drops.sort();
		let g = self.pend.take().unwrap_or_else(S::events);
		if self.obs & DROPS != 0 {
			ev = ev.ints("d", &drops)
		}
		if self.obs & (STORE | MOVES) != 0 {
			ev = ev.raw("g", list(g.iter(), |(c, n)| format!("[{c},{n}]")))
		}
		ev
	}

	/// Observes the state of a tree.
	pub fn look(&mut self, ev: Ev, h: i64) -> (Ev, Option<Dump<S>>) {
		let r = catch(|| {
			let obs = self.obs;
			let mut ev = ev;
			let mut dump = None;
			if !self.trees.contains_key(&h) {
				return (ev, None);
			}
			if obs & LEN != 0 {
				let t = &self.trees[&h];
				ev = ev.n("n", t.len().min(1 << 30) as i64).b("e", t.is_empty());
			}
			if obs & ENDS != 0 {
				let t = self.tree(h);
				ev = ev
					.opt("f", t.first().map(Tok::show))
					.opt("l", t.last().map(Tok::show))
					.opt("fm", t.first_mut().map(|t| t.show()))
					.opt("lm", t.last_mut().map(|t| t.show()));
			}
			if obs & CONTENT != 0 {
				let t = &self.trees[&h];
				let s: Vec<It> = t.iter().take(CAP).map(Tok::show).collect();
				ev = ev.items("s", &s);
			}
			if obs & (DUMP | STORE) != 0 {
				let d = Dump::of(&self.trees[&h]);
				if obs & DUMP != 0 {
					ev = ev.raw("t", d.json())
				}
				if obs & STORE != 0 {
					let ids: Vec<i64> = d.ids.iter().map(|i| S::code(*i)).collect();
					ev = ev.ints("ri", &ids).b("rbad", d.bad)
				}
				dump = Some(d)
			}
			if obs & VALID != 0 {
				let t = &self.trees[&h];
				#[cfg(debug_assertions)]
				{
					let ok = catch(|| t.validate(cmp)).is_ok();
					ev = ev.b("ok", ok)
				}
				let _ = t;
			}
			if obs & OTHERS != 0 {
				let o = list(self.trees.keys().filter(|k| **k != h), |k| {
					format!("[{},{}]", k, Dump::of(&self.trees[k]).json())
				});
				ev = ev.raw("o", o)
			}
			(ev, dump)
		});
		match r {
			Ok(r) => {
				self.clear_logs();
				r
			}
			Err(m) => {
				self.dead = true;
				(Ev::new("lookfail").s("px", &m), None)
			}
		}
	}

	fn fail(&mut self, ev: Ev, m: &str) {
		self.dead = true;
		self.effects(ev).s("px", m).emit()
	}

	/// Ends an event.
	pub fn fin(&mut self, ev: Ev, h: i64) -> Option<Dump<S>> {
		let ev = self.effects(ev);
		let (ev, d) = self.look(ev, h);
		ev.emit();
		d
	}

	pub fn note_panic(&mut self, ev: Ev, m: String) {
		self.fail(ev, &m)
	}

	// ---- trees ----

	/// An existing tree, not made by a recorded history.
	pub fn given(&mut self, h: i64, tree: RawBTree<Tok, S>, keys: &[i64]) -> Dump<S> {
		if let Some(old) = self.trees.insert(h, tree) {
			// not part of the history
			if catch(|| drop(old)).is_err() {
				self.clear_logs()
			}
		}
		self.clear_logs();
		let d = self.dump(h);
		let ids: Vec<i64> = d.ids.iter().map(|i| S::code(*i)).collect();
		let mut ev = Ev::new("given").n("h", h).raw("t", d.json()).items("s", &d.inorder());
		if self.obs & (STORE | MOVES) != 0 {
			ev = ev.ints("ri", &ids)
		}
		if self.obs & CONTENT != 0 {
			ev = ev.ints("ks", keys)
		}
		ev.emit();
		d
	}

	pub fn new_tree(&mut self, h: i64) {
		let ev = Ev::new("new").n("h", h);
		match self.run(|_| if h % 2 == 1 { RawBTree::new() } else { RawBTree::default() }) {
			Ok(t) => {
				self.trees.insert(h, t);
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	// ---- keyed operations ----

	pub fn insert(&mut self, h: i64, k: i64) {
		let x = Tok::new(k);
		self.insert_tok(h, x)
	}

	pub fn insert_tok(&mut self, h: i64, x: Tok) {
		let ev = Ev::new("insert").n("h", h).item("x", x.show());
		match self.run(|c| c.tree(h).insert(cmp, x)) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				drop(r);
				self.fin2(ev, h)
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Inserts while there is room for so many nodes only; tells whether that was enough.
	/// `a`: at an address, or exactly there; otherwise by key.
	pub fn insert_full(&mut self, h: i64, a: Option<(Option<[i64; 2]>, bool)>, x: Tok, room: usize) -> bool {
		let d = self.dump(h);
		let item = x.show();
		let name = match a {
			None => "insert",
			Some((_, false)) => "insert_at",
			Some((_, true)) => "insert_ex",
		};
		let told = |name: &str| {
			let ev = Ev::new(name).n("h", h).item("x", item);
			match a {
				Some((at, _)) => ev.ints("a", &at.map(|a| a.to_vec()).unwrap_or_default()),
				None => ev,
			}
		};
		self.clear_logs();
		let (r, out) = with_room(room, || {
			catch(|| match a {
				None => (self.tree(h).insert(cmp, x), None),
				Some((at, exact)) => {
					let at = at.map(|a| d.dec(a));
					let t = self.tree(h);
					(None, unsafe { if exact { t.insert_exactly_at(at, x, None) } else { t.insert_at(at, x) } })
				}
			})
		});
		match r {
			Ok((r, ra)) => {
				let ev = told(name);
				if a.is_some() {
					let ev = self.effects(ev);
					self.addr_result(ev, h, ra)
				} else {
					let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
					drop(r);
					self.fin2(ev, h)
				}
				true
			}
			Err(m) if out && m.contains(FULL) => {
				self.fin(told(&format!("{name}_f")), h);
				false
			}
			Err(m) => {
				self.fail(told(name), &m);
				true
			}
		}
	}

	/// Clones while there is room for so many nodes only, into a tree that exists or a new one; tells whether that was
	/// enough (the clone is then forgotten).
	pub fn clone_full(&mut self, h: i64, h2: Option<i64>, room: usize) -> bool {
		self.clear_logs();
		let made = || -> Vec<i64> { ledger(|l| l.clones.iter().map(|c| c.1).collect()) };
		if let Some(h2) = h2 {
			let mut to = self.trees.remove(&h2).unwrap();
			let (r, out) = with_room(room, || catch(|| to.clone_from(&self.trees[&h])));
			self.trees.insert(h2, to);
			match r {
				Ok(()) => {
					let pairs: Vec<(i64, i64)> = ledger(|l| l.clones.clone());
					let ev = Ev::new("clone_into").n("h", h).n("h2", h2).raw("cl", list(pairs, |(a, b)| format!("[{a},{b}]")));
					self.fin3(ev, h2);
					true
				}
				Err(m) if out && m.contains(FULL) => {
					let made = made();
					let ev = self.effects(Ev::new("clone_into_p").n("h", h).n("h2", h2).ints("made", &made));
					self.fin3(ev, h2);
					self.clear_logs();
					self.fin(Ev::new("noop").n("h", h), h);
					false
				}
				Err(m) => {
					self.fail(Ev::new("clone_into").n("h", h).n("h2", h2), &m);
					true
				}
			}
		} else {
			let (r, out) = with_room(room, || catch(|| self.tree(h).clone()));
			match r {
				Ok(t) => {
					std::mem::forget(t);
					self.clear_logs();
					true
				}
				Err(m) if out && m.contains(FULL) => {
					let made = made();
					self.fin(Ev::new("clone_p").n("h", h).ints("made", &made), h);
					false
				}
				Err(m) => {
					self.fail(Ev::new("clone").n("h", h), &m);
					true
				}
			}
		}
	}

	fn fin3(&mut self, ev: Ev, h: i64) {
		let ev = self.effects(ev);
		self.fin2(ev, h)
	}

	fn fin2(&mut self, ev: Ev, h: i64) {
		let (ev, _) = self.look(ev, h);
		ev.emit()
	}

	pub fn remove(&mut self, h: i64, k: i64) {
		let ev = Ev::new("remove").n("h", h).n("k", k);
		match self.run(|c| c.tree(h).remove(kcmp, &k)) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				drop(r);
				self.fin2(ev, h)
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn get(&mut self, h: i64, k: i64) {
		let ev = Ev::new("get").n("h", h).n("k", k);
		match self.run(|c| c.tree(h).get(kcmp, &k).map(Tok::show)) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Several lookups at once.
	pub fn gets(&mut self, h: i64, ks: &[i64]) {
		let ev = Ev::new("gets").n("h", h).ints("ks", ks);
		match self.run(|c| ks.iter().map(|k| c.tree(h).get(kcmp, k).map(Tok::show)).collect::<Vec<_>>()) {
			Ok(r) => {
				let ev = self.effects(ev.raw("rs", list(r, jopt)));
				ev.emit();
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// What tells an emptied tree from a new one.
	pub fn fresh(&mut self, h: i64) {
		let ev = Ev::new("fresh").n("h", h);
		match self.run(|c| {
			let t = c.tree(h);
			(t.root().is_none(), t.is_empty(), t.len(), t.first_item_address().is_none(), t.iter().count())
		}) {
			Ok((a, b, n, f, k)) => {
				let cap = |x: usize| x.min(1 << 30) as i64;
				let ev = ev.b("noroot", a).b("empty", b).n("size", cap(n)).b("nofirst", f).n("count", cap(k));
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Removal giving the item back.
	pub fn remove_keep(&mut self, h: i64, k: i64) -> Option<Tok> {
		let ev = Ev::new("remove").n("h", h).n("k", k);
		match self.run(|c| c.tree(h).remove(kcmp, &k)) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				self.fin2(ev, h);
				r
			}
			Err(m) => {
				self.fail(ev, &m);
				None
			}
		}
	}

	/// Mutable lookup; the value of the item found is set to `w`.
	pub fn get_mut(&mut self, h: i64, k: i64, w: i64) {
		let ev = Ev::new("getm").n("h", h).n("k", k).n("w", w);
		match self.run(|c| {
			c.tree(h).get_mut(kcmp, &k).map(|t| {
				let r = t.show();
				t.v = w;
				r
			})
		}) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn end_mut(&mut self, h: i64, last: bool, w: i64) {
		let ev = Ev::new(if last { "lastm" } else { "firstm" }).n("h", h).n("w", w);
		match self.run(|c| {
			let t = c.tree(h);
			(if last { t.last_mut() } else { t.first_mut() }).map(|t| {
				let r = t.show();
				t.v = w;
				r
			})
		}) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn ends(&mut self, h: i64) {
		let ev = Ev::new("ends").n("h", h);
		match self.run(|c| {
			let t = c.tree(h);
			(t.first().map(Tok::show), t.last().map(Tok::show))
		}) {
			Ok((f, l)) => {
				self.fin(ev.opt("r", f).opt("r2", l), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn address_of(&mut self, h: i64, k: i64) -> Option<Result<Addr<S>, Option<Addr<S>>>> {
		let d = self.dump(h);
		let ev = Ev::new("addr_of").n("h", h).n("k", k);
		match self.run(|c| c.tree(h).address_of(kcmp, &k)) {
			Ok(r) => {
				let (ok, a) = match r {
					Ok(a) => (true, Some(a)),
					Err(a) => (false, a),
				};
				self.fin(ev.b("hit", ok).ints("a", &d.enc_opt(a)), h);
				Some(r)
			}
			Err(m) => {
				self.fail(ev, &m);
				None
			}
		}
	}

	// ---- keyed operations under a coarser order ----

	pub fn insert_c(&mut self, h: i64, k: i64, w: i64) {
		let x = Tok::new(k);
		let ev = Ev::new("insert_c").n("h", h).n("c", w).item("x", x.show());
		match self.run(|c| c.tree(h).insert(|a, b| class(a.k, w).cmp(&class(b.k, w)), x)) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				drop(r);
				self.fin2(ev, h)
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Whether there was one.
	pub fn remove_c(&mut self, h: i64, k: i64, w: i64) -> bool {
		let ev = Ev::new("remove_c").n("h", h).n("c", w).n("k", k);
		match self.run(|c| c.tree(h).remove(|a, b: &i64| class(a.k, w).cmp(b), &class(k, w))) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				let any = r.is_some();
				drop(r);
				self.fin2(ev, h);
				any
			}
			Err(m) => {
				self.fail(ev, &m);
				false
			}
		}
	}

	pub fn get_c(&mut self, h: i64, k: i64, w: i64) {
		let ev = Ev::new("get_c").n("h", h).n("c", w).n("k", k);
		match self.run(|c| c.tree(h).get(|a, b: &i64| class(a.k, w).cmp(b), &class(k, w)).map(Tok::show)) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn get_mut_c(&mut self, h: i64, k: i64, w: i64, v: i64) {
		let ev = Ev::new("getm_c").n("h", h).n("c", w).n("k", k).n("w", v);
		match self.run(|c| {
			c.tree(h).get_mut(|a, b: &i64| class(a.k, w).cmp(b), &class(k, w)).map(|t| {
				let r = t.show();
				t.v = v;
				r
			})
		}) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// The address found, if it is that of an item, or where one would go.
	pub fn address_of_c(&mut self, h: i64, k: i64, w: i64) -> Option<[i64; 2]> {
		let d = self.dump(h);
		let ev = Ev::new("addr_of_c").n("h", h).n("c", w).n("k", k);
		match self.run(|c| c.tree(h).address_of(|a, b: &i64| class(a.k, w).cmp(b), &class(k, w))) {
			Ok(r) => {
				let (ok, a) = match r {
					Ok(a) => (true, Some(a)),
					Err(a) => (false, a),
				};
				let code = d.enc_opt(a);
				let known = match code[..] {
					[n, o] if n > 0 && o >= 0 && o <= d.count([n, o]) => Some([n, o]),
					_ => None,
				};
				self.fin(ev.b("hit", ok).ints("a", &code), h);
				known
			}
			Err(m) => {
				self.fail(ev, &m);
				None
			}
		}
	}

	/// Number of calls of the comparison.
	pub fn cost(&mut self, h: i64, kind: &str, k: i64, d: &Dump<S>) {
		let n = Cell::new(0i64);
		let count = |a: &Tok, b: &i64| {
			n.set(n.get() + 1);
			kcmp(a, b)
		};
		let size = d.nodes.iter().map(|n| n.i.len()).sum::<usize>() as i64;
		let ev = Ev::new("cost").s("kind", kind).n("k", k).n("ht", d.height() as i64).n("sz", size);
		let r = self.run(|c| match kind {
			"get" => c.tree(h).get(count, &k).is_some(),
			"getm" => c.tree(h).get_mut(count, &k).is_some(),
			"addr" => c.tree(h).address_of(count, &k).is_ok(),
			"remove" => c.tree(h).remove(count, &k).is_some(),
			_ => c
				.tree(h)
				.insert(
					|a, b| {
						n.set(n.get() + 1);
						cmp(a, b)
					},
					Tok::new(k),
				)
				.is_some(),
		});
		match r {
			Ok(_) => {
				self.clear_logs();
				ev.n("calls", n.get()).emit()
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	// ---- lawless and panicking comparisons ----

	pub fn insert_lax(&mut self, h: i64, k: i64, seed: u64) {
		let x = Tok::new(k);
		let ev = Ev::new("insert_lax").n("h", h).item("x", x.show());
		let law = lawless(seed);
		match self.run(|c| c.tree(h).insert(|_, _| law(), x)) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				drop(r);
				self.fin2(ev, h)
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn remove_lax(&mut self, h: i64, seed: u64) {
		let ev = Ev::new("remove_lax").n("h", h);
		let law = lawless(seed);
		match self.run(|c| c.tree(h).remove(|_, _: &i64| law(), &0)) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				drop(r);
				self.fin2(ev, h)
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn get_lax(&mut self, h: i64, seed: u64, mutable: bool) {
		let ev = Ev::new("get_lax").n("h", h);
		let law = lawless(seed);
		match self.run(|c| {
			if mutable {
				c.tree(h).get_mut(|_, _: &i64| law(), &0).map(|t| t.show())
			} else {
				c.tree(h).get(|_, _: &i64| law(), &0).map(Tok::show)
			}
		}) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// A keyed operation whose comparison panics at the given call.
	/// Returns whether it did panic; otherwise the operation is recorded as
	/// the ordinary one.
	pub fn cmp_panic(&mut self, h: i64, kind: &str, k: i64, at: usize, lax: bool) -> bool {
		let n = Cell::new(0usize);
		let boom = || {
			n.set(n.get() + 1);
			if n.get() > at {
				panic!("comparison")
			}
		};
		let kc = |a: &Tok, b: &i64| {
			boom();
			kcmp(a, b)
		};
		self.clear_logs();
		match kind {
			"insert" => {
				let x = Tok::new(k);
				let sx = x.show();
				let r = catch(|| {
					self.tree(h).insert(
						|a, b| {
							boom();
							cmp(a, b)
						},
						x,
					)
				});
				match r {
					Ok(r) => {
						let op = if lax { "insert_lax" } else { "insert" };
						let ev = Ev::new(op).n("h", h).item("x", sx).opt("r", r.as_ref().map(Tok::show));
						let ev = self.effects(ev);
						drop(r);
						self.fin2(ev, h);
						false
					}
					Err(m) if !m.starts_with("comparison") => {
						self.fail(Ev::new("insert_p").n("h", h), &m);
						false
					}
					Err(_) => {
						self.fin(Ev::new("insert_p").n("h", h).item("x", sx), h);
						true
					}
				}
			}
			_ => {
				let r = catch(|| match kind {
					"remove" => self.tree(h).remove(kc, &k),
					"get" => {
						self.tree(h).get(kc, &k);
						None
					}
					_ => {
						self.tree(h).get_mut(kc, &k);
						None
					}
				});
				match r {
					Ok(r) => {
						if kind == "remove" {
							let op = if lax { "remove_lax" } else { "remove" };
							let ev = Ev::new(op).n("h", h).n("k", k).opt("r", r.as_ref().map(Tok::show));
							let ev = self.effects(ev);
							drop(r);
							self.fin2(ev, h);
						}
						false
					}
					Err(m) if !m.starts_with("comparison") => {
						self.fail(Ev::new("read_p").n("h", h), &m);
						false
					}
					Err(_) => {
						self.fin(Ev::new("read_p").n("h", h), h);
						true
					}
				}
			}
		}
	}

	// ---- positions ----

	/// Inserts at an address (`None` only in an empty tree).
	pub fn insert_at(&mut self, h: i64, a: Option<[i64; 2]>, x: Tok, exact: bool) -> Option<Addr<S>> {
		let d = self.dump(h);
		let addr = a.map(|a| d.dec(a));
		let a = a.map(|a| a.to_vec()).unwrap_or_default();
		let ev = Ev::new(if exact { "insert_ex" } else { "insert_at" }).n("h", h).ints("a", &a).item("x", x.show());
		match self.run(|c| unsafe {
			if exact {
				c.tree(h).insert_exactly_at(addr, x, None)
			} else {
				c.tree(h).insert_at(addr, x)
			}
		}) {
			Ok(r) => {
				let ev = self.effects(ev);
				self.addr_result(ev, h, r);
				r
			}
			Err(m) => {
				self.fail(ev, &m);
				None
			}
		}
	}

	fn addr_result(&mut self, ev: Ev, h: i64, r: Option<Addr<S>>) {
		let d = catch(|| Dump::of(&self.trees[&h]));
		let ev = match d {
			Ok(d) => ev.ints("ra", &d.enc_opt(r)),
			Err(m) => ev.s("px", &m),
		};
		self.fin2(ev, h)
	}

	/// Inserts exactly at an internal address without a right node: refused.
	pub fn insert_refused(&mut self, h: i64, a: [i64; 2]) {
		let d = self.dump(h);
		let addr = d.dec(a);
		let x = Tok::new(1);
		let ev = Ev::new("insert_refused").n("h", h).ints("a", &a).item("x", x.show());
		self.clear_logs();
		match catch(|| unsafe { self.tree(h).insert_exactly_at(Some(addr), x, None) }) {
			Err(_) => {
				self.fin(ev, h);
			}
			Ok(_) => {
				// not refused
				self.fail(ev, "an insertion into an internal node was not refused")
			}
		}
	}

	/// Removes at an address; gives the item back with the address.
	pub fn remove_at(&mut self, h: i64, a: [i64; 2]) -> Option<(Tok, Option<Addr<S>>)> {
		let d = self.dump(h);
		let addr = d.dec(a);
		let ev = Ev::new("remove_at").n("h", h).ints("a", &a);
		match self.run(|c| unsafe { c.tree(h).remove_at(addr) }) {
			Ok(Some((t, ra))) => {
				let ev = self.effects(ev.opt("r", Some(t.show())));
				self.addr_result(ev, h, ra);
				Some((t, ra))
			}
			Ok(None) => {
				self.fin(ev.opt("r", None).ints("ra", &[]), h);
				None
			}
			Err(m) => {
				self.fail(ev, &m);
				None
			}
		}
	}

	pub fn replace_at(&mut self, h: i64, a: [i64; 2], k: i64) {
		let d = self.dump(h);
		let addr = d.dec(a);
		let x = Tok::new(k);
		let ev = Ev::new("replace_at").n("h", h).ints("a", &a).item("x", x.show());
		match self.run(|c| unsafe { c.tree(h).replace_at(addr, x) }) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", Some(r.show())));
				drop(r);
				self.fin2(ev, h)
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn write_at(&mut self, h: i64, a: [i64; 2], w: i64) {
		let d = self.dump(h);
		let addr = d.dec(a);
		let ev = Ev::new("write_at").n("h", h).ints("a", &a).n("w", w);
		match self.run(|c| unsafe {
			c.tree(h).get_mut_at(addr).map(|t| {
				let r = t.show();
				t.v = w;
				r
			})
		}) {
			Ok(r) => {
				self.fin(ev.opt("r", r), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Every walk from every address, and the item read there.
	pub fn nav(&mut self, h: i64) {
		let d = self.dump(h);
		let t = &self.trees[&h];
		let walk = |f: &dyn Fn() -> Option<Addr<S>>| match catch(f) {
			Ok(a) => jints(&d.enc_opt(a)),
			Err(_) => "[-7,0]".into(),
		};
		let rows = list(d.addrs(), |a| {
			let addr = d.dec(a);
			unsafe {
				let item = match catch(|| t.get_at(addr).map(Tok::show)) {
					Ok(i) => jopt(i),
					Err(_) => "[[-7,-7,-7]]".into(),
				};
				format!(
					"[{},{},{},{},{},{},{},{},{}]",
					jints(&a),
					item,
					walk(&|| t.next_item_address(addr)),
					walk(&|| t.previous_item_address(addr)),
					walk(&|| t.next_back_address(addr)),
					walk(&|| t.previous_front_address(addr)),
					walk(&|| t.next_item_or_back_address(addr)),
					walk(&|| t.normalize(addr)),
					if a[1] >= 0 { walk(&|| Some(t.leaf_address(addr))) } else { "[]".into() },
				)
			}
		});
		let first = jints(&d.enc_opt(t.first_item_address()));
		Ev::new("nav").n("h", h).raw("tab", rows).raw("fst", first).emit()
	}

	// ---- whole trees ----

	pub fn clone_tree(&mut self, h: i64, h2: i64) {
		let ev = Ev::new("clone").n("h", h).n("h2", h2);
		match self.run(|c| c.tree(h).clone()) {
			Ok(t) => {
				self.trees.insert(h2, t);
				let pairs = ledger(|l| std::mem::take(&mut l.clones));
				let ev = self.effects(ev.raw("cl", list(pairs, |(a, b)| format!("[{a},{b}]"))));
				// the source is among the others observed
				let (ev, _) = self.look(ev, h2);
				ev.emit()
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Clones into an existing tree; the n-th item clone panics.
	pub fn clone_into_panic(&mut self, h: i64, h2: i64, fuse: usize) {
		let mut to = self.trees.remove(&h2).unwrap();
		self.clear_logs();
		ledger(|l| l.clone_fuse = Some(fuse));
		let r = catch(|| to.clone_from(&self.trees[&h]));
		ledger(|l| l.clone_fuse = None);
		self.trees.insert(h2, to);
		if r.is_ok() {
			self.dead = true;
			return;
		}
		let made: Vec<i64> = ledger(|l| l.clones.iter().map(|c| c.1).collect());
		let ev = self.effects(Ev::new("clone_into_p").n("h", h).n("h2", h2).ints("made", &made));
		let (ev, _) = self.look(ev, h2);
		ev.emit();
		self.clear_logs();
		self.fin(Ev::new("noop").n("h", h), h);
	}

	/// Clones with the destructor-like fault: the n-th item clone panics.
	pub fn clone_panic(&mut self, h: i64, fuse: usize) -> bool {
		self.clear_logs();
		ledger(|l| l.clone_fuse = Some(fuse));
		let r = catch(|| self.tree(h).clone());
		ledger(|l| l.clone_fuse = None);
		match r {
			Ok(t) => {
				std::mem::forget(t);
				false
			}
			Err(_) => {
				let made: Vec<i64> = ledger(|l| l.clones.iter().map(|c| c.1).collect());
				self.fin(Ev::new("clone_p").n("h", h).ints("made", &made), h);
				true
			}
		}
	}

	pub fn clear(&mut self, h: i64) {
		let ev = Ev::new("clear").n("h", h);
		match self.run(|c| c.tree(h).clear()) {
			Ok(()) => {
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn forget(&mut self, h: i64) {
		let ev = Ev::new("forget").n("h", h);
		match self.run(|c| c.tree(h).forget()) {
			Ok(()) => {
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn drop_tree(&mut self, h: i64) {
		let ev = Ev::new("drop").n("h", h);
		let t = self.trees.remove(&h).unwrap();
		match self.run(|_| drop(t)) {
			Ok(()) => {
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Clears or drops a tree some items of which have a panicking destructor.
	pub fn end_panic(&mut self, h: i64, kind: &str, armed: &[i64]) -> bool {
		self.clear_logs();
		ledger(|l| l.armed = armed.iter().copied().collect());
		let r = if kind == "drop" {
			let t = self.trees.remove(&h).unwrap();
			catch(|| drop(t))
		} else {
			catch(|| self.tree(h).clear())
		};
		ledger(|l| l.armed.clear());
		let name = match (kind, r.is_err()) {
			("drop", true) => "drop_p",
			("drop", false) => "drop",
			(_, true) => "clear_p",
			(_, false) => "clear",
		};
		self.fin(Ev::new(name).n("h", h), h);
		r.is_err()
	}

	/// The validator only exists with debug assertions.
	#[cfg(not(debug_assertions))]
	pub fn validate(&mut self, _: i64) {}

	#[cfg(debug_assertions)]
	pub fn validate(&mut self, h: i64) {
		let d = self.dump(h);
		let t = &self.trees[&h];
		let ok = catch(|| t.validate(cmp)).is_ok();
		Ev::new("validate").n("h", h).raw("t", d.json()).b("ok", ok).emit()
	}

	#[cfg(not(debug_assertions))]
	pub fn validate_below(&mut self, _: i64, _: &mut Rng) {}

	/// Validation from a node, or of a node alone, with bounds and a parent that fit or not.
	#[cfg(debug_assertions)]
	pub fn validate_below(&mut self, h: i64, r: &mut Rng) {
		let d = self.dump(h);
		if d.bad {
			return;
		}
		let t = &self.trees[&h];
		let keys: Vec<i64> = d.inorder().iter().map(|x| x[0]).collect();
		let mut rows: Vec<String> = Vec::new();
		let opt = |x: Option<i64>| jints(&x.into_iter().collect::<Vec<_>>());
		for n in 0..d.ids.len() {
			if d.ids.len() > 12 && r.chance(1, 2) {
				continue;
			}
			// the items below
			let mut below = vec![n];
			let mut at = 0;
			while at < below.len() {
				below.extend(d.nodes[below[at]].c.iter().map(|c| c - 1));
				at += 1;
			}
			let all: Vec<i64> = below.iter().flat_map(|b| d.nodes[*b].i.iter().map(|x| x[0])).collect();
			let own: Vec<i64> = d.nodes[n].i.iter().map(|x| x[0]).collect();
			for _ in 0..4 {
				let whole = r.chance(1, 2);
				let from = if whole || own.is_empty() { &all } else { &own };
				let least = from.iter().min().copied().unwrap_or(0);
				let most = from.iter().max().copied().unwrap_or(0);
				// the nearest key that fits, one that does not, any, or none
				let mut pick = |edge: i64, out: i64| match r.below(8) {
					0 | 1 => None,
					2 => Some(edge),
					3 => Some(edge - out),
					4 if !keys.is_empty() => Some(keys[r.below(keys.len())]),
					_ => Some(edge + out),
				};
				let (lo, hi) = (pick(least, -1), pick(most, 1));
				let own_parent = d.nodes[n].p;
				// a parent that cannot be told is none of those it may have
				let par = match own_parent as usize {
					p if p > d.ids.len() => 0,
					_ if r.chance(1, 5) => r.below(d.ids.len() + 1),
					p => p,
				};
				let parent = if par == 0 { None } else { Some(d.ids[par - 1]) };
				let (a, b) = (std::mem::ManuallyDrop::new(Tok { k: lo.unwrap_or(0), id: -1, v: 0 }), std::mem::ManuallyDrop::new(Tok { k: hi.unwrap_or(0), id: -1, v: 0 }));
				let (min, max) = (lo.map(|_| &*a), hi.map(|_| &*b));
				let (ok, depth) = if whole {
					match catch(|| t.validate_node(&cmp, d.ids[n], parent, min, max)) {
						Ok(x) => (1, x.min(1000) as i64),
						Err(_) => (0, 0),
					}
				} else {
					(catch(|| unsafe { t.node(d.ids[n]) }.validate(cmp, parent, min, max)).is_ok() as i64, 0)
				};
				rows.push(format!("[{},{par},{},{},{},{ok},{depth}]", n + 1, opt(lo), opt(hi), whole as i64));
			}
		}
		Ev::new("validate_below").n("h", h).raw("t", d.json()).raw("rows", list(rows, |x| x)).emit()
	}

	pub fn visit(&mut self, h: i64) {
		let d = self.dump(h);
		let mut a = Vec::new();
		let mut b = Vec::new();
		let ev = Ev::new("visit").n("h", h);
		match self.run(|c| {
			c.tree(h).visit_from_leaves(|id| a.push(d.find(id) as i64));
			c.tree(h).visit_from_leaves_mut(|id, node| {
				let its: Vec<It> = (0..node.item_count()).filter_map(|k| node.item(k.into()).map(Tok::show)).collect();
				b.push(format!("[{},{}]", d.find(id), jitems(&its)))
			});
		}) {
			Ok(()) => {
				let ev = ev.ints("ord", &a).raw("mut", list(b, |x| x));
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Visits whose visitor panics at some point.
	pub fn visit_cut(&mut self, h: i64, r: &mut Rng) {
		let d = self.dump(h);
		let ev = Ev::new("visit_cut").n("h", h);
		let n = d.ids.len();
		let ks: Vec<usize> = (0..n.min(4)).map(|_| r.below(n)).collect();
		match self.run(|c| {
			let mut rows = Vec::new();
			for k in ks {
				for mutable in [false, true] {
					let mut a = Vec::new();
					let mut see = |id| {
						a.push(d.find(id) as i64);
						if a.len() > k {
							panic!("as told")
						}
					};
					let t = c.tree(h);
					let res = catch(|| match mutable {
						false => t.visit_from_leaves(see),
						true => t.visit_from_leaves_mut(|id, _| see(id)),
					});
					let kind = res.map_or_else(|m| 1 + !m.contains("as told") as i64, |_| 0);
					rows.push(format!("[{k},{kind},{}]", jints(&a)))
				}
			}
			rows
		}) {
			Ok(rows) => {
				self.fin(ev.raw("rows", list(rows, |x| x)), h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn visit_all_below(&mut self, h: i64) {
		let d = self.dump(h);
		let ev = Ev::new("visit_below").n("h", h);
		match self.run(|c| c.visit_below(h, &d)) {
			Ok(Some(v)) => {
				self.fin(ev.raw("subs", v), h);
			}
			Ok(None) => (),
			Err(m) => self.fail(ev, &m),
		}
	}

	/// Visits that start from each node, where the storage can be had apart from the tree.
	fn visit_below(&mut self, h: i64, d: &Dump<S>) -> Option<String> {
		let mut nodes = S::apart()?;
		if d.ids.len() > 40 {
			return None;
		}
		let mut rows = Vec::new();
		for id in &d.ids {
			let (mut a, mut b) = (Vec::new(), Vec::new());
			let node = unsafe { self.tree(h).node(*id) };
			node.visit_from_leaves(&nodes, |i| a.push(d.find(i) as i64));
			node.visit_from_leaves_with(&nodes, &mut |i| b.push(d.find(i) as i64));
			let show = |i: S::Node, n: &Node<Tok, S>| {
				let its: Vec<It> = (0..n.item_count()).filter_map(|k| n.item(k.into()).map(Tok::show)).collect();
				format!("[{},{}]", d.find(i), jitems(&its))
			};
			let (mut x, mut y) = (Vec::new(), Vec::new());
			node.visit_from_leaves_mut(&mut nodes, |i, n| x.push(show(i, n)));
			node.visit_from_leaves_mut_with(&mut nodes, &mut |i, n: &mut Node<Tok, S>| y.push(show(i, n)));
			rows.push(format!("[{},{},{},{}]", jints(&a), jints(&b), list(x, |x| x), list(y, |x| x)));
		}
		Some(list(rows, |x| x))
	}

	pub fn views(&mut self, h: i64, keys: &[i64]) {
		let d = self.dump(h);
		let ev = Ev::new("views").n("h", h);
		let r = self.run(|c| {
			let t = c.tree(h);
			let v = list(d.ids.iter(), |id| {
				let node = unsafe { t.node(*id) };
				crate::prim::view(node, &|i: S::Node| d.find(i) as i64, keys, &d.ids)
			});
			// which identifiers are the same
			let like = |f: &dyn Fn(&S::Node) -> bool| {
				let l: Vec<i64> = (0..d.ids.len()).filter(|j| f(&d.ids[*j])).map(|j| j as i64 + 1).collect();
				jints(&l)
			};
			let v2 = list(d.ids.iter(), |id| {
				#[allow(clippy::clone_on_copy)]
				let copy = id.clone();
				let name = format!("{id:?}");
				let rows = [
					like(&|x| x == id),
					like(&|x| !(*x != *id)),
					like(&|x| *x == copy),
					like(&|x| S::shown(*x) == S::shown(copy)),
					like(&|x| format!("{x:?}") == name),
				];
				list(rows, |x| x)
			});
			// through mutable references: items by offset, searches by key
			let v3 = list(d.ids.iter(), |id| {
				let node = unsafe { t.node_mut(*id) };
				crate::prim::view_mut(node, &|i: S::Node| d.find(i) as i64, keys)
			});
			(v, v2, v3)
		});
		match r {
			Ok((v, v2, v3)) => {
				let ev = ev.ints("keys", keys).raw("vs", v).raw("eqs", v2).raw("ms", v3);
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	/// As text and as text with characters that mean something in DOT, in turn.
	pub fn dot(&mut self, h: i64) {
		let d = self.dump(h);
		let decorated = DOTS.with(|d| {
			d.set(d.get() + 1);
			d.get() % 2 == 0
		});
		let ev = Ev::new("dot").n("h", h);
		match self.run(|c| {
			let mut out = Vec::new();
			let _on = Decorate::new(decorated);
			S::dot(c.tree(h), &mut out).map(|()| String::from_utf8_lossy(&out).into_owned())
		}) {
			Ok(Err(e)) => self.fail(ev, &format!("{:?}", e.kind())),
			Ok(Ok(text)) => {
				let codes: Vec<i64> = d.ids.iter().map(|i| S::shown(*i)).collect();
				let ev = ev.raw("st", crate::fams::dot_statements(&text, &codes, decorated));
				self.fin(ev, h);
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	// ---- iterators ----

	/// Writers that take no more than so many bytes, a few at a time.
	pub fn dot_cut(&mut self, h: i64, r: &mut Rng) {
		let ev = Ev::new("dotcut").n("h", h);
		let mut seed = Rng::new(r.next());
		let decorated = r.chance(1, 2);
		match self.run(|c| {
			let _on = Decorate::new(decorated);
			let mut whole = Vec::new();
			S::dot(c.tree(h), &mut whole).ok()?;
			let n = whole.len();
			let mut rows = Vec::new();
			for limit in [0, 1, n / 2, seed.below(n), seed.below(n), n - 1, n, n + 7] {
				let mut w = Narrow { got: Vec::new(), limit, step: 1 + seed.below(9), rest: 0 };
				let res = S::dot(c.tree(h), &mut w);
				let kind = match &res {
					Ok(()) => 0,
					Err(e) if e.kind() == std::io::ErrorKind::QuotaExceeded => 1,
					Err(_) => 2,
				};
				rows.push([limit as i64, kind, w.got.len() as i64, whole.starts_with(&w.got) as i64]);
			}
			Some((n, rows))
		}) {
			Ok(Some((n, rows))) => {
				self.fin(ev.n("size", n as i64).raw("cuts", list(rows, |x| format!("[{},{},{},{}]", x[0], x[1], x[2], x[3]))), h);
			}
			Ok(None) => self.fail(ev, "refused"),
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn hint(ev: Ev, h: (usize, Option<usize>)) -> Ev {
		let cap = |x: usize| x.min(1 << 30) as i64;
		ev.n("lo", cap(h.0)).n("hi", h.1.map(cap).unwrap_or(-1))
	}

	/// Shared iterators: `script` is a sequence of (iterator, command), the
	/// commands being `f`ront, `b`ack and `c`opy.
	pub fn iterate(&mut self, h: i64, base: i64, script: &[(usize, char)]) {
		self.clear_logs();
		let obs = self.obs;
		let mut its: Vec<raw_btree::Iter<'_, Tok, S>> = Vec::new();
		let t = &self.trees[&h];
		let mut dead = None;
		match catch(|| if base % 2 == 0 { t.iter() } else { t.into_iter() }) {
			Ok(i) => {
				Self::hint(Ev::new("iter").n("h", h).n("it", base).s("kind", "iter"), i.size_hint()).emit();
				its.push(i)
			}
			Err(m) => dead = Some((Ev::new("iter").n("h", h).n("it", base), m)),
		}
		if dead.is_none() {
			for (w, c) in script {
				let w = *w % its.len();
				let it = base + w as i64;
				match c {
					'c' => {
						let n = base + its.len() as i64;
						#[allow(clippy::clone_on_copy)]
						let i = if n % 2 == 0 { its[w].clone() } else { its[w] };
						its.push(i);
						Self::hint(Ev::new("copy").n("it", it).n("it2", n), its[n as usize - base as usize].size_hint()).emit()
					}
					_ => {
						let front = *c == 'f';
						let ev = Ev::new(if front { "next" } else { "back" }).n("it", it);
						let i = &mut its[w];
						match catch(|| (if front { i.next() } else { i.next_back() }).map(Tok::show)) {
							Ok(r) => {
								let n = catch(|| its[w].len().min(1 << 30) as i64).unwrap_or(-7);
								Self::hint(ev.opt("r", r).n("len", n), its[w].size_hint()).emit()
							}
							Err(m) => {
								dead = Some((ev, m));
								break;
							}
						}
					}
				}
			}
		}
		match dead {
			Some((ev, m)) => self.fail(ev, &m),
			None => {
				for w in 0..its.len() {
					Ev::new("idrop").n("it", base + w as i64).n("h", h).emit()
				}
				drop(its);
				self.obs = obs;
				self.fin(Ev::new("noop").n("h", h), h);
			}
		}
	}

	/// Mutable iteration; yielded items are written at once with `w`, `w + 1`, ..., and again after the whole
	/// iteration, in the reverse order, when `late`.
	pub fn iterate_mut(&mut self, h: i64, it: i64, script: &str, w: i64, late: bool) {
		self.clear_logs();
		let mut held: Vec<&mut Tok> = Vec::new();
		let t: &mut RawBTree<Tok, S> = self.trees.get_mut(&h).unwrap();
		let t: &'static mut RawBTree<Tok, S> = unsafe { &mut *(t as *mut _) };
		let mut i = match catch(|| if it % 2 == 0 { t.iter_mut() } else { t.into_iter() }) {
			Ok(i) => i,
			Err(m) => return self.fail(Ev::new("iter").n("h", h).n("it", it), &m),
		};
		Self::hint(Ev::new("iter").n("h", h).n("it", it).s("kind", "mut"), i.size_hint()).emit();
		for (j, c) in script.chars().enumerate() {
			let front = c == 'f';
			let ev = Ev::new(if front { "next" } else { "back" }).n("it", it).n("w", w + j as i64);
			match catch(|| if front { i.next() } else { i.next_back() }) {
				Ok(r) => {
					let s = r.as_ref().map(|t| t.show());
					if let Some(t) = r {
						t.v = w + j as i64;
						held.push(t)
					}
					let n = catch(|| i.len().min(1 << 30) as i64).unwrap_or(-7);
					Self::hint(ev.opt("r", s).n("len", n), i.size_hint()).emit()
				}
				Err(m) => return self.fail(ev, &m),
			}
		}
		#[allow(clippy::drop_non_drop)]
		drop(i);
		Ev::new("idrop").n("it", it).n("h", h).emit();
		if late {
			for (j, t) in held.iter_mut().rev().enumerate() {
				t.v = w + 1000 + j as i64;
				Ev::new("late").n("h", h).n("i", t.id).n("w", t.v).emit()
			}
		}
		self.fin(Ev::new("noop").n("h", h), h);
	}

	pub fn into_iter(&mut self, h: i64, it: i64) {
		let t = self.trees.remove(&h).unwrap();
		let ev = Ev::new("iter").n("h", h).n("it", it).s("kind", "into");
		match self.run(|_| t.into_iter()) {
			Ok(i) => {
				let hint = i.size_hint();
				self.intos.insert(it, i);
				let ev = self.effects(ev);
				Self::hint(ev, hint).emit()
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn into_step(&mut self, it: i64, front: bool) {
		let ev = Ev::new(if front { "next" } else { "back" }).n("it", it);
		match self.run(|c| {
			let i = c.intos.get_mut(&it).unwrap();
			if front {
				i.next()
			} else {
				i.next_back()
			}
		}) {
			Ok(r) => {
				let ev = self.effects(ev.opt("r", r.as_ref().map(Tok::show)));
				drop(r);
				self.clear_logs();
				let i = &self.intos[&it];
				let n = catch(|| i.len().min(1 << 30) as i64).unwrap_or(-7);
				Self::hint(ev.n("len", n), i.size_hint()).emit()
			}
			Err(m) => self.fail(ev, &m),
		}
	}

	pub fn into_drop(&mut self, it: i64) {
		let i = self.intos.remove(&it).unwrap();
		let ev = Ev::new("idrop").n("it", it);
		match self.run(|_| drop(i)) {
			Ok(()) => self.effects(ev).emit(),
			Err(m) => self.fail(ev, &m),
		}
	}

	/// An owning iterator that is forgotten.
	pub fn into_leak(&mut self, it: i64, h: i64) {
		let i = self.intos.remove(&it).unwrap();
		std::mem::forget(i);
		Ev::new("ileak").n("it", it).n("h", h).emit()
	}

	/// Steps, then one of the provided methods, then steps again if the iterator is still there; it is then dropped,
	/// or forgotten.
	pub fn bulk(&mut self, h: i64, it: i64, kind: &str, before: &str, how: &str, k: usize, after: &str, w: i64, leak: bool) {
		self.clear_logs();
		let opening = Ev::new("iter").n("h", h).n("it", it).s("kind", kind);
		match kind {
			"iter" => {
				let t: &'static RawBTree<Tok, S> = unsafe { &*(&self.trees[&h] as *const _) };
				self.bulk_with(|| if it % 2 == 0 { t.iter() } else { t.into_iter() }, |x| x.show(), (h, it), opening, (before, after), how, k, w, leak)
			}
			"mut" => {
				let t: &'static mut RawBTree<Tok, S> = unsafe { &mut *(self.trees.get_mut(&h).unwrap() as *mut _) };
				let write = |x: &mut &'static mut Tok| {
					let r = x.show();
					x.v = w;
					r
				};
				self.bulk_with(|| if it % 2 == 0 { t.iter_mut() } else { t.into_iter() }, write, (h, it), opening, (before, after), how, k, w, leak)
			}
			_ => {
				let t = self.trees.remove(&h).unwrap();
				self.bulk_with(|| t.into_iter(), |x| x.show(), (h, it), opening, (before, after), how, k, w, leak)
			}
		}
	}

	#[allow(clippy::too_many_arguments)]
	pub fn bulk_with<X, I>(
		&mut self,
		make: impl FnOnce() -> I,
		see: impl Fn(&mut X) -> It,
		(h, it): (i64, i64),
		opening: Ev,
		(before, after): (&str, &str),
		how: &str,
		k: usize,
		w: i64,
		leak: bool,
	) where
		X: std::borrow::Borrow<Tok>,
		I: DoubleEndedIterator<Item = X> + ExactSizeIterator,
	{
		let ev = opening;
		let mut i = match catch(make) {
			Ok(i) => i,
			Err(m) => return self.fail(ev, &m),
		};
		let ev = self.effects(ev);
		Self::hint(ev, i.size_hint()).emit();
		// room for the items taken, so that nothing else is allocated during the calls
		let mut got: Vec<X> = Vec::with_capacity(CAP);
		let step = |c: &mut Self, i: &mut I, got: &mut Vec<X>, x: char| -> bool {
			let ev = Ev::new(if x == 'f' { "next" } else { "back" }).n("it", it).n("w", w);
			c.clear_logs();
			match catch(|| if x == 'f' { i.next() } else { i.next_back() }) {
				Ok(r) => {
					let ev = c.effects(ev);
					let mut r = r;
					let s = r.as_mut().map(&see);
					got.extend(r);
					let n = catch(|| i.len().min(1 << 30) as i64).unwrap_or(-7);
					Self::hint(ev.opt("r", s).n("len", n), i.size_hint()).emit();
					true
				}
				Err(m) => {
					c.fail(ev, &m);
					false
				}
			}
		};
		for x in before.chars() {
			if !step(self, &mut i, &mut got, x) {
				return std::mem::forget((i, got));
			}
		}
		let from = got.len();
		let ev = Ev::new("bulk").n("h", h).n("it", it).s("how", how).n("k", k as i64).n("w", w);
		self.clear_logs();
		let mut slot = Some(i);
		let mut num = -1;
		let r = catch(|| {
			let mut seen = 0;
			// true at the k-th call
			let mut kth = || {
				seen += 1;
				seen == k + 1
			};
			let mut out = std::mem::ManuallyDrop::new(std::mem::take(&mut got));
			let g = &mut *out;
			match how {
				"nth" => g.extend(slot.as_mut().unwrap().nth(k)),
				"nth_back" => g.extend(slot.as_mut().unwrap().nth_back(k)),
				"find" => g.extend(slot.as_mut().unwrap().find(|_| kth())),
				"rfind" => g.extend(slot.as_mut().unwrap().rfind(|_| kth())),
				"position" => num = slot.as_mut().unwrap().position(|_| kth()).map(|x| x as i64).unwrap_or(-1),
				"any" => num = if slot.as_mut().unwrap().any(|_| kth()) { k as i64 } else { -1 },
				"take" => g.extend(slot.as_mut().unwrap().by_ref().take(k)),
				"last" => g.extend(slot.take().unwrap().last()),
				"count" => num = slot.take().unwrap().count().min(1 << 30) as i64,
				"fold" => slot.take().unwrap().fold((), |_, x| g.push(x)),
				"each" => slot.take().unwrap().for_each(|x| g.push(x)),
				"collect" => g.extend(slot.take().unwrap()),
				"rfold" => slot.take().unwrap().rfold((), |_, x| g.push(x)),
				"rev" => g.extend(slot.take().unwrap().rev()),
				"step" => g.extend(slot.take().unwrap().step_by(k)),
				"rev_skip" => g.extend(slot.take().unwrap().rev().skip(k)),
				"skip" => g.extend(slot.take().unwrap().skip(k)),
				"find_map" => g.extend(slot.as_mut().unwrap().find_map(|x| if kth() { Some(x) } else { None })),
				"all" => num = if slot.as_mut().unwrap().all(|_| !kth()) { -1 } else { k as i64 },
				"rposition" => num = slot.as_mut().unwrap().rposition(|_| kth()).map_or(-1, |x| x as i64),
				"try_fold" | "try_rfold" => {
					let i = slot.as_mut().unwrap();
					let f = |_, x| {
						g.push(x);
						if kth() {
							Err(())
						} else {
							Ok(())
						}
					};
					let r = if how == "try_fold" { i.try_fold((), f) } else { i.try_rfold((), f) };
					num = if r.is_err() { k as i64 } else { -1 }
				}
				"reduce" => g.extend(slot.take().unwrap().reduce(|_, x| x)),
				"most" => g.extend(slot.take().unwrap().max_by(|a, b| cmp(a.borrow(), b.borrow()))),
				// closures that panic at their k-th call
				"fold_p" | "each_p" | "rfold_p" | "find_p" | "any_p" | "collect_p" => {
					let mut f = |x: X| {
						g.push(x);
						if kth() {
							panic!("as told")
						}
					};
					let r = match how {
						"fold_p" => catch(|| slot.take().unwrap().fold((), |_, x| f(x))),
						"each_p" => catch(|| slot.take().unwrap().for_each(f)),
						"rfold_p" => catch(|| slot.take().unwrap().rfold((), |_, x| f(x))),
						"collect_p" => catch(|| slot.take().unwrap().map(f).collect::<Vec<()>>().clear()),
						_ => {
							let mut f = || {
								if kth() {
									panic!("as told")
								}
								false
							};
							let i = slot.as_mut().unwrap();
							catch(|| if how == "find_p" { drop(i.find(|_| f())) } else { i.any(|_| f()); })
						}
					};
					num = match r {
						Ok(()) => -1,
						Err(m) if m.contains("as told") => k as i64,
						Err(m) => panic!("{m}"),
					}
				}
				"least" => g.extend(slot.take().unwrap().min_by(|a, b| cmp(a.borrow(), b.borrow()))),
				_ => unreachable!("{how}"),
			}
			out
		});
		let mut got = match r {
			Ok(out) => std::mem::ManuallyDrop::into_inner(out),
			Err(m) => {
				std::mem::forget(slot);
				return self.fail(ev, &m);
			}
		};
		let ev = self.effects(ev);
		let rs: Vec<It> = got[from..].iter_mut().map(&see).collect();
		let ev = ev.items("r", &rs).n("num", num);
		match slot {
			None => ev.emit(),
			Some(mut i) => {
				let n = catch(|| i.len().min(1 << 30) as i64).unwrap_or(-7);
				Self::hint(ev.n("len", n), i.size_hint()).emit();
				for x in after.chars() {
					if !step(self, &mut i, &mut got, x) {
						return std::mem::forget((i, got));
					}
				}
				if leak {
					std::mem::forget(i);
					Ev::new("ileak").n("it", it).n("h", h).emit()
				} else {
					let ev = Ev::new("idrop").n("it", it);
					self.clear_logs();
					match catch(|| drop(i)) {
						Ok(()) => self.effects(ev).emit(),
						Err(m) => return self.fail(ev, &m),
					}
				}
			}
		}
		drop(got);
		self.clear_logs();
		if self.trees.contains_key(&h) {
			self.fin(Ev::new("noop").n("h", h), h);
		}
	}

	/// Clones into an existing tree.
	pub fn clone_into(&mut self, h: i64, h2: i64) {
		let ev = Ev::new("clone_into").n("h", h).n("h2", h2);
		let mut to = self.trees.remove(&h2).unwrap();
		match self.run(|c| to.clone_from(&c.trees[&h])) {
			Ok(()) => {
				self.trees.insert(h2, to);
				let pairs = ledger(|l| std::mem::take(&mut l.clones));
				let ev = self.effects(ev.raw("cl", list(pairs, |(a, b)| format!("[{a},{b}]"))));
				let (ev, _) = self.look(ev, h2);
				ev.emit()
			}
			Err(m) => {
				std::mem::forget(to);
				self.fail(ev, &m)
			}
		}
	}

	pub fn into_drop_panic(&mut self, it: i64, armed: &[i64]) -> bool {
		self.clear_logs();
		let i = self.intos.remove(&it).unwrap();
		ledger(|l| l.armed = armed.iter().copied().collect());
		let r = catch(|| drop(i));
		ledger(|l| l.armed.clear());
		let ev = Ev::new(if r.is_err() { "idrop_p" } else { "idrop" }).n("it", it);
		self.effects(ev).emit();
		r.is_err()
	}
}
