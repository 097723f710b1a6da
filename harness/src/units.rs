//! Items unlike those of the other families: without size, or large and
//! strictly aligned.  They cannot be told from each other, only counted.
use crate::ctx::{catch, Rng};
use crate::fams::P;
use crate::out::*;
use raw_btree::{storage::BoxStorage, Address, Node, RawBTree, M};
use std::cell::Cell;
use std::cmp::Ordering;

thread_local! {
	static DROPS: Cell<i64> = const { Cell::new(0) };
}

fn dropped() {
	DROPS.with(|d| d.set(d.get() + 1))
}

trait Unit: Clone {
	const COUNTED: bool;
	fn make() -> Self;
	fn sound(&self) -> bool;
}

impl Unit for () {
	const COUNTED: bool = false;
	fn make() {}
	fn sound(&self) -> bool {
		true
	}
}

/// No size, but a destructor.
struct Zero;

impl Clone for Zero {
	fn clone(&self) -> Zero {
		Zero
	}
}

impl Drop for Zero {
	fn drop(&mut self) {
		dropped()
	}
}

impl Unit for Zero {
	const COUNTED: bool = true;
	fn make() -> Zero {
		Zero
	}
	fn sound(&self) -> bool {
		true
	}
}

/// Large, and aligned more strictly than anything else.
#[repr(align(128))]
struct Wide([u64; 48]);

impl Clone for Wide {
	fn clone(&self) -> Wide {
		Wide(self.0)
	}
}

impl Drop for Wide {
	fn drop(&mut self) {
		dropped();
		self.0 = [0; 48]
	}
}

impl Unit for Wide {
	const COUNTED: bool = true;
	fn make() -> Wide {
		let mut w = [0; 48];
		for (i, x) in w.iter_mut().enumerate() {
			*x = 0x5eed_0000 + i as u64
		}
		Wide(w)
	}
	fn sound(&self) -> bool {
		let at = self as *const Wide as usize;
		at % 128 == 0 && self.0.iter().enumerate().all(|(i, x)| *x == 0x5eed_0000 + i as u64)
	}
}

const FAR: usize = 100_000;

/// How many sound items there are.
fn count<'a, T: Unit + 'a>(i: impl Iterator<Item = &'a T>) -> i64 {
	let mut n = 0;
	for x in i.take(FAR) {
		if !x.sound() {
			return -1;
		}
		n += 1
	}
	n
}

fn less<T>(_: &T, _: &T) -> Ordering {
	Ordering::Less
}

fn equal<T>(_: &T, _: &T) -> Ordering {
	Ordering::Equal
}

type Row = (&'static str, i64, i64, i64, [i64; 3], i64);

fn rows_json(rows: &[Row]) -> String {
	list(rows, |(op, a, b, r, see, d)| format!("[\"{op}\",{a},{b},{r},{},{},{},{d}]", see[0], see[1], see[2]))
}

fn begin<T: Unit>() -> Ev {
	DROPS.with(|d| d.set(0));
	Ev::new("units").b("counted", T::COUNTED)
}

/// Runs `f` over the rows; what is left of them if it panics is reported.
fn log(ev: Ev, f: impl FnOnce(&mut Vec<Row>)) {
	let mut rows = Vec::new();
	let r = catch(|| f(&mut rows));
	let ev = ev.raw("rows", rows_json(&rows));
	match r {
		Ok(()) => ev.emit(),
		Err(m) => ev.s("px", &m).emit(),
	}
}

fn take_drops() -> i64 {
	DROPS.with(|d| d.replace(0))
}

fn tree<T: Unit>(p: &P, seed: u64) {
	let mut r = Rng::new(seed);
	log(begin::<T>(), |rows| {
		let mut t: RawBTree<T, BoxStorage> = RawBTree::new();
		let mut addrs: Vec<Address<_>> = Vec::new();
		let top = [12, 60, 300][r.below(3)];
		for _ in 0..p.n {
			let n = t.len().min(FAR);
			let kind = r.below(if n < top { 24 } else { 32 });
			let mut row: Row = ("", 0, 0, 0, [0; 3], 0);
			let any = |r: &mut Rng, addrs: &Vec<Address<_>>| addrs.get(r.below(addrs.len().max(1))).copied();
			match kind {
				0..=9 => {
					row.0 = "add";
					unsafe { t.insert_at(any(&mut r, &addrs), T::make()) };
				}
				10 | 11 => {
					row.0 = "add";
					row.3 = t.insert(less, T::make()).is_some() as i64;
				}
				12 => {
					row.0 = "put";
					row.3 = t.insert(equal, T::make()).is_some() as i64;
				}
				13 => {
					row.0 = "del";
					row.3 = t.remove(equal, &T::make()).is_some() as i64;
					// the key goes too
					if T::COUNTED {
						DROPS.with(|d| d.set(d.get() - 1))
					}
				}
				14 => {
					row.0 = "get";
					row.3 = (t.first().is_some() && t.last_mut().is_some() && !t.is_empty()) as i64;
				}
				15 if r.chance(1, 3) => {
					row.0 = "clone";
					let c = t.clone();
					row.3 = count(c.iter());
				}
				16 if r.chance(1, 8) => {
					row.0 = "clear";
					t.clear();
				}
				17 if r.chance(1, 12) => {
					row.0 = "forget";
					t.forget();
				}
				18 | 19 if r.chance(1, 6) => {
					row.0 = "into";
					let k = r.below(n + 3);
					row.1 = k as i64;
					let mut i = std::mem::take(&mut t).into_iter();
					for j in 0..k {
						row.3 += if j % 2 == 0 { i.next() } else { i.next_back() }.is_some() as i64
					}
				}
				_ => {
					if let Some(a) = any(&mut r, &addrs) {
						row.0 = "take";
						row.3 = unsafe { t.remove_at(a) }.is_some() as i64;
					} else {
						row.0 = "get";
					}
				}
			}
			addrs.clear();
			let mut a = t.first_item_address();
			while let Some(x) = a {
				addrs.push(x);
				if addrs.len() >= FAR {
					break;
				}
				a = unsafe { t.next_item_address(x) }
			}
			row.4 = [t.len().min(FAR) as i64, count(t.iter()), count(t.iter_mut().rev().map(|x| &*x))];
			row.5 = take_drops();
			rows.push(row);
		}
		let n = count(t.iter());
		drop(t);
		rows.push(("drop", 0, 0, n, [0; 3], take_drops()));
	})
}

fn leaf<T: Unit>(n: usize) -> Node<T, BoxStorage> {
	let mut node = Node::<T, BoxStorage>::leaf(None, T::make());
	for _ in 1..n {
		node.push_right(T::make(), None);
	}
	node
}

fn arrays<T: Unit>(p: &P, seed: u64) {
	let mut r = Rng::new(seed);
	log(begin::<T>(), |rows| {
		let node = leaf::<T>(1);
		let Node::Leaf(l) = &node else { return };
		let mut a = l.items().clone();
		let mut none = l.items().clone();
		none.clear();
		let cap = M + 1;
		take_drops();
		rows.push(("given", 1, 0, 0, [1, count(a.iter()), count(a.iter())], 0));
		for _ in 0..p.n {
			let n = a.len();
			let mut row: Row = ("", 0, 0, 0, [0; 3], 0);
			let (x, y) = (r.below(n + 1), r.below(n + 1));
			match r.below(14) {
				0..=2 if n < cap => {
					row.0 = "add";
					a.push(T::make());
				}
				3 | 4 if n < cap => {
					row.0 = "add";
					a.insert(x, T::make());
				}
				5 => {
					row.0 = "del";
					row.3 = a.pop().is_some() as i64;
				}
				6 if x < n => {
					row.0 = "take";
					row.3 = a.remove(x).is_some() as i64;
				}
				7 | 8 => {
					row.0 = "drain";
					(row.1, row.2) = (x.min(y) as i64, x.max(y) as i64);
					let mut d = a.drain(x.min(y)..x.max(y));
					for j in 0..r.below(4) {
						row.3 += if j % 2 == 0 { d.next() } else { d.next_back() }.is_some() as i64
					}
					let left = d.len() as i64;
					row.3 += left;
				}
				9 => {
					row.0 = "extend";
					let k = r.below(cap - n + 1);
					row.1 = k as i64;
					a.extend((0..k).map(|_| T::make()));
				}
				10 => {
					row.0 = "extend";
					let k = r.below(cap - n + 1);
					row.1 = k as i64;
					let mut b = none.clone();
					for _ in 0..k {
						b.push(T::make())
					}
					a.append(&mut b);
					if !b.is_empty() {
						row.3 = -1
					}
				}
				11 => {
					row.0 = "clone";
					let c = a.clone();
					row.3 = count(c.as_slice().iter());
				}
				12 if r.chance(1, 4) => {
					row.0 = "clear";
					a.clear();
				}
				13 if r.chance(1, 3) => {
					row.0 = "into";
					row.1 = x as i64;
					let mut i = std::mem::replace(&mut a, none.clone()).into_iter();
					for j in 0..x {
						row.3 += if j % 2 == 0 { i.next() } else { i.next_back() }.is_some() as i64
					}
				}
				_ => {
					row.0 = "get";
					row.3 = a.as_slice_mut().last_mut().is_some() as i64;
				}
			}
			row.4 = [a.len().min(FAR) as i64, count(a.iter()), count(a.as_slice_mut().iter_mut().rev().map(|x| &*x))];
			row.5 = take_drops();
			rows.push(row);
		}
		let n = a.len() as i64;
		drop(a);
		rows.push(("drop", 0, 0, n, [0; 3], take_drops()));
	})
}

pub fn units(p: &P) {
	for s in 0..p.count as u64 {
		let seed = p.seed * 1000 + s;
		Ev::new("begin").n("m", M as i64).s("tag", "units").s("fam", "units").b("strict", false).emit();
		if p.has("tree") {
			tree::<()>(p, seed);
			tree::<Zero>(p, seed + 1);
			tree::<Wide>(p, seed + 2);
		}
		if p.has("array") {
			arrays::<()>(p, seed);
			arrays::<Zero>(p, seed + 1);
			arrays::<Wide>(p, seed + 2);
		}
	}
}
