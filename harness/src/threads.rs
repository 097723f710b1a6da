//! Trees used by several threads: read by many at once, handed from one to
//! another between operations, and different trees used at the same time.
use crate::ctx::{catch, Rng};
use crate::fams::P;
use crate::out::*;
use raw_btree::node::{ChildrenWithSeparators, InternalNode, LeafNode};
use raw_btree::storage::{BoxPtr, BoxStorage};
use raw_btree::{Address, IntoIter, Iter, IterMut, Node, RawBTree, M};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, MutexGuard};

// ---- what may be moved and shared ----

struct Probe<T>(PhantomData<T>);
trait Otherwise {
	const SEND: bool = false;
	const SYNC: bool = false;
}
impl<T> Otherwise for Probe<T> {}
struct ProbeSend<T>(PhantomData<T>);
impl<T> Otherwise for ProbeSend<T> {}
impl<T: Send> ProbeSend<T> {
	const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
	const SYNC: bool = true;
}

macro_rules! mark {
	($rows:ident, $item:ty, $($name:literal $t:ty),*) => {$(
		$rows.push(($name, <ProbeSend<$item>>::SEND, <Probe<$item>>::SYNC, <ProbeSend<$t>>::SEND, <Probe<$t>>::SYNC));
	)*};
}

macro_rules! marks {
	($rows:ident, $($item:ty),*) => {$(
		mark!($rows, $item,
			"tree" RawBTree<$item>, "into" IntoIter<$item>, "itermut" IterMut<'static, $item>, "iter" Iter<'static, $item>,
			"node" Node<$item, BoxStorage>, "leaf" LeafNode<$item, BoxStorage>, "inner" InternalNode<$item, BoxStorage>,
			"seps" ChildrenWithSeparators<'static, $item, BoxStorage>, "address" Address<BoxPtr<$item>>);
	)*};
}

fn markers() {
	let mut rows: Vec<(&str, bool, bool, bool, bool)> = Vec::new();
	marks!(rows, i64, String, Cell<i64>, MutexGuard<'static, i64>, Rc<i64>, *const i64);
	let b = |x: bool| x as i64;
	Ev::new("markers")
		.raw("rows", list(rows, |(n, a, c, d, e)| format!("[\"{n}\",{},{},{},{}]", b(a), b(c), b(d), b(e))))
		.emit()
}

// ---- trees among threads ----

/// Whatever the crate says, so that this builds anyway.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
	fn get(self) -> T {
		self.0
	}
}

const SLOTS: usize = 256;
static DROPS: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];

/// Not of the size of other items, whose boxes are counted.
pub struct Thr {
	k: i64,
	v: i64,
	slot: usize,
	check: i64,
}

impl Thr {
	fn new(k: i64, v: i64, slot: usize) -> Thr {
		Thr { k, v, slot, check: k ^ 0x5eed }
	}
	fn show(&self) -> Kv {
		if self.check == self.k ^ 0x5eed {
			(self.k, self.v)
		} else {
			(-1, -1)
		}
	}
}

impl Clone for Thr {
	fn clone(&self) -> Thr {
		let (k, v) = self.show();
		Thr::new(k, v, self.slot)
	}
}

impl Drop for Thr {
	fn drop(&mut self) {
		self.check = 0;
		DROPS[self.slot % SLOTS].fetch_add(1, SeqCst);
	}
}

type Kv = (i64, i64);
type Tree = RawBTree<Thr, BoxStorage>;
const FAR: usize = 3000;

fn cmp(a: &Thr, b: &Thr) -> Ordering {
	a.k.cmp(&b.k)
}
fn kcmp(a: &Thr, k: &i64) -> Ordering {
	a.k.cmp(k)
}
fn kv(x: &Thr) -> Kv {
	x.show()
}
fn kvs(x: &[Kv]) -> String {
	list(x, |(k, v)| format!("[{},{}]", small(*k), small(*v)))
}

#[derive(PartialEq)]
struct Row {
	op: &'static str,
	a: i64,
	b: i64,
	/// Results, those of concurrent reads included: what, argument, items.
	r: Vec<(&'static str, i64, Vec<Kv>)>,
	d: i64,
}

struct Sess {
	tree: Tree,
	rows: Vec<Row>,
	rng: Rng,
	slot: usize,
	next: i64,
	top: usize,
	broken: Option<String>,
}

fn one(x: Option<Thr>) -> Vec<Kv> {
	x.iter().map(kv).collect()
}

/// One read of the tree, by a thread among others.
fn read(t: &Tree, r: &mut Rng, span: i64) -> (&'static str, i64, Vec<Kv>) {
	let k = r.below(span as usize) as i64;
	match r.below(12) {
		0..=3 => ("get", k, t.get(kcmp, &k).iter().map(|x| kv(x)).collect()),
		4 => ("all", 0, t.iter().take(FAR).map(kv).collect()),
		5 => ("rev", 0, t.iter().rev().take(FAR).map(kv).collect()),
		6 => {
			let mut i = t.iter();
			let mut v = Vec::new();
			while let Some(x) = i.next() {
				v.push(kv(x));
				v.extend(i.next_back().map(kv));
				if v.len() > FAR {
					break;
				}
			}
			("both", 0, v)
		}
		7 => {
			let mut v = Vec::new();
			let mut a = t.first_item_address();
			while let Some(x) = a {
				v.extend(unsafe { t.get_at(x) }.map(kv));
				if v.len() > FAR {
					break;
				}
				a = unsafe { t.next_item_address(x) }
			}
			("all", 0, v)
		}
		8 => ("len", t.len() as i64 - t.is_empty() as i64, Vec::new()),
		9 => ("ends", 0, t.first().into_iter().chain(t.last()).map(kv).collect()),
		10 => {
			let c = t.clone();
			("copy", 0, c.iter().take(FAR).map(kv).collect())
		}
		_ => {
			let v = match t.address_of(kcmp, &k) {
				Ok(a) => unsafe { t.get_at(a) }.map(kv),
				Err(Some(a)) => unsafe { t.normalize(a).and_then(|a| t.get_at(a)) }.map(kv),
				Err(None) => None,
			};
			("after", k, v.into_iter().collect())
		}
	}
}

/// Runs each closure on a thread of its own, all at once as far as possible.
fn together<R, F: FnOnce() -> R>(fs: Vec<F>) -> Vec<R> {
	let (n, here) = (fs.len(), AtomicUsize::new(0));
	let here = &here;
	std::thread::scope(|s| {
		let hs: Vec<_> = fs
			.into_iter()
			.map(|f| {
				let f = Force(f);
				s.spawn(move || {
					let f = f;
					here.fetch_add(1, SeqCst);
					while here.load(SeqCst) < n {
						std::hint::spin_loop()
					}
					Force(catch(f.get()))
				})
			})
			.collect();
		hs.into_iter()
			.map(|h| match h.join() {
				Ok(r) => match r.get() {
					Ok(x) => x,
					Err(m) => panic!("{m}"),
				},
				Err(_) => panic!("a thread ended"),
			})
			.collect()
	})
}

/// On another thread.
fn elsewhere<R>(f: impl FnOnce() -> R) -> R {
	together(vec![f]).pop().unwrap()
}

impl Sess {
	fn step(&mut self) {
		let slot = self.slot;
		let span = 2 * self.top as i64;
		let n = self.tree.len().min(FAR);
		let k = self.rng.below(span as usize) as i64;
		let kind = self.rng.below(if n < self.top { 100 } else { 130 });
		let mut row = Row { op: "", a: 0, b: 0, r: Vec::new(), d: 0 };
		let seed = self.rng.next();
		let tree = &mut self.tree;
		match kind {
			0..=54 => {
				self.next += 1;
				let x = Thr::new(k, self.next, slot);
				(row.op, row.a, row.b) = ("put", k, self.next);
				let old = if kind % 4 == 0 { elsewhere(|| one(tree.insert(cmp, x))) } else { one(tree.insert(cmp, x)) };
				row.r.push(("old", 0, old));
			}
			60..=75 => {
				(row.op, row.a) = ("read", 0);
				let readers = 2 + self.rng.below(3);
				let t = &*tree;
				row.r = together(
					(0..readers)
						.map(|j| {
							move || {
								let mut r = Rng::new(seed ^ j as u64);
								(0..5).map(|_| read(t, &mut r, span)).collect::<Vec<_>>()
							}
						})
						.collect(),
				)
				.into_iter()
				.flatten()
				.collect();
				row.b = row.r.iter().filter(|x| x.0 == "copy").count() as i64;
			}
			76..=79 => {
				// the same, again and again for a while; what differs is recorded
				row.op = "read";
				let t = &*tree;
				let m = 30_000 / (n + 30);
				let seen = together(
					(0..4)
						.map(|j| {
							move || {
								let mut r = Rng::new(seed ^ j as u64);
								let mut seen = HashSet::new();
								let mut copies = 0;
								for _ in 0..m {
									// few different reads, so that threads meet
									let mut q = Rng::new(seed ^ 77 ^ r.below(6) as u64);
									let w = read(t, &mut q, span);
									copies += (w.0 == "copy") as i64;
									seen.insert(w);
								}
								(copies, seen)
							}
						})
						.collect(),
				);
				let mut all = HashSet::new();
				for (copies, s) in seen {
					row.b += copies;
					all.extend(s)
				}
				row.r = all.into_iter().collect();
				row.r.sort();
			}
			80..=83 => {
				// every item written by one of several threads, all at once
				row.op = "write";
				let mut parts: Vec<Vec<&mut Thr>> = (0..3).map(|_| Vec::new()).collect();
				for (j, x) in tree.iter_mut().take(FAR).enumerate() {
					parts[j % 3].push(x)
				}
				let counts = together(
					parts
						.into_iter()
						.map(|p| {
							move || {
								let n = p.len() as i64;
								for x in p {
									x.v += 10_000
								}
								n
							}
						})
						.collect(),
				);
				row.a = counts.iter().sum();
			}
			84 | 85 => {
				// an iterator begun by one thread, ended by another
				row.op = "write";
				let m = self.rng.below(n + 2);
				let mut i = tree.iter_mut();
				elsewhere(|| {
					for x in i.by_ref().take(m) {
						x.v += 10_000;
						row.a += 1
					}
				});
				elsewhere(|| {
					for x in i.rev().take(FAR) {
						x.v += 10_000;
						row.a += 1
					}
				});
			}
			86 | 87 => {
				// copies of an iterator on several threads
				row.op = "read";
				let m = self.rng.below(n + 2);
				let mut i = tree.iter();
				row.r.push(("front", m as i64, elsewhere(|| i.by_ref().take(m).map(kv).collect())));
				let rests = together((0..3).map(|_| move || i.take(FAR).map(kv).collect::<Vec<_>>()).collect());
				row.r.extend(rests.into_iter().map(|v| ("rest", m as i64, v)));
			}
			88 | 89 => {
				// the tree is replaced by a copy made elsewhere, and dropped elsewhere
				row.op = "swap";
				let t = &*tree;
				let c = elsewhere(|| t.clone());
				let old = std::mem::replace(tree, c);
				elsewhere(move || drop(old));
			}
			90 if self.rng.chance(1, 6) => {
				row.op = "clear";
				elsewhere(|| tree.clear());
			}
			91 if self.rng.chance(1, 8) => {
				row.op = "forget";
				elsewhere(|| tree.forget());
			}
			92 if self.rng.chance(1, 5) => {
				row.op = "into";
				let (a, b) = (self.rng.below(n + 1), self.rng.below(n + 1));
				(row.a, row.b) = (a as i64, b as i64);
				let mut i = std::mem::take(tree).into_iter();
				row.r.push(("front", row.a, elsewhere(|| i.by_ref().take(a).map(|x| kv(&x)).collect())));
				row.r.push(("back", row.b, elsewhere(|| i.by_ref().rev().take(b).map(|x| kv(&x)).collect())));
				elsewhere(move || drop(i));
			}
			_ => {
				// preferably an item that there is
				let k = match tree.address_of(kcmp, &k) {
					Err(Some(a)) if kind % 3 != 0 => unsafe { tree.normalize(a).and_then(|a| tree.get_at(a)) }.map_or(k, |x| x.k),
					_ => k,
				};
				(row.op, row.a) = ("del", k);
				let old = if kind % 4 == 0 { elsewhere(|| one(tree.remove(kcmp, &k))) } else { one(tree.remove(kcmp, &k)) };
				row.r.push(("old", 0, old));
			}
		}
		row.d = DROPS[slot].swap(0, SeqCst);
		self.rows.push(row);
	}

	fn close(mut self) {
		let slot = self.slot;
		if self.broken.is_none() {
			let mut row = Row { op: "drop", a: 0, b: 0, r: Vec::new(), d: 0 };
			let t = self.tree;
			row.r.push(("all", 0, t.iter().take(FAR).map(kv).collect()));
			let r = catch(|| elsewhere(move || drop(t)));
			self.broken = r.err();
			row.d = DROPS[slot].swap(0, SeqCst);
			self.rows.push(row)
		} else {
			std::mem::forget(self.tree)
		}
		emit(&self.rows, self.broken)
	}
}

fn emit(rows: &[Row], broken: Option<String>) {
	let ev = Ev::new("threads").raw(
		"rows",
		list(rows, |w| {
			let r = list(&w.r, |(f, x, v)| format!("[\"{f}\",{},{}]", small(*x), kvs(v)));
			format!("[\"{}\",{},{},{r},{}]", w.op, w.a, w.b, w.d)
		}),
	);
	match broken {
		None => ev.emit(),
		Some(m) => ev.s("px", &m).emit(),
	}
}

/// A tree that grows and shrinks as `script` says: a key, and whether to put it or take it out.
fn life(script: &[(i64, bool)], slot: usize) -> Vec<Row> {
	let mut t = Tree::new();
	let mut rows = Vec::with_capacity(script.len() + 1);
	for (j, &(k, put)) in script.iter().enumerate() {
		let (op, b, old) = match put {
			true => ("put", j as i64, one(t.insert(cmp, Thr::new(k, j as i64, slot)))),
			false => ("del", 0, one(t.remove(kcmp, &k))),
		};
		rows.push(Row { op, a: k, b, r: vec![("old", 0, old)], d: DROPS[slot].swap(0, SeqCst) })
	}
	let all = t.iter().take(FAR).map(kv).collect();
	drop(t);
	rows.push(Row { op: "drop", a: 0, b: 0, r: vec![("all", 0, all)], d: DROPS[slot].swap(0, SeqCst) });
	rows
}

/// Four threads live the lives of trees of their own again and again; the different lives seen are recorded.
fn lives(seed: u64, times: usize) {
	let scripts: Vec<Vec<(i64, bool)>> = (0..4)
		.map(|j| {
			let mut r = Rng::new(seed * 8 + j);
			let top = [8, 20, 50][r.below(3)];
			let mut script = Vec::new();
			for _ in 0..2 {
				for phase in [true, false] {
					// up or down, in order or not
					let way = r.below(3);
					for x in 0..top {
						let k = [x, top - 1 - x, r.below(top)][way] as i64;
						script.push((k, phase != r.chance(1, 8)))
					}
				}
			}
			script
		})
		.collect();
	let seen = together(
		scripts
			.iter()
			.enumerate()
			.map(|(slot, script)| {
				move || {
					DROPS[slot].store(0, SeqCst);
					let (mut seen, mut broken): (Vec<Vec<Row>>, _) = (Vec::new(), None);
					for _ in 0..times {
						match catch(|| life(script, slot)) {
							Ok(rows) if seen.len() < 4 && !seen.contains(&rows) => seen.push(rows),
							Ok(_) => (),
							Err(m) => {
								broken = Some(m);
								break;
							}
						}
					}
					(seen, broken)
				}
			})
			.collect(),
	);
	for (seen, broken) in seen {
		for rows in seen {
			emit(&rows, None)
		}
		if broken.is_some() {
			emit(&[], broken)
		}
	}
}

/// `n` operations on each of four trees, each on whichever of four threads has the tree at the moment.
fn ring(seed: u64, n: usize) {
	const K: usize = 4;
	let (txs, rxs): (Vec<_>, Vec<_>) = (0..K).map(|_| mpsc::channel::<Option<Force<Sess>>>()).unzip();
	let (done, results) = mpsc::channel::<Force<Sess>>();
	let finished = &AtomicUsize::new(0);
	for (j, tx) in txs.iter().enumerate() {
		let mut rng = Rng::new(seed * 16 + j as u64);
		let slot = ((seed as usize) * K + j) % SLOTS;
		DROPS[slot].store(0, SeqCst);
		let top = [10, 40, 120, 400][(rng.below(4) + j) % 4];
		let s = Sess { tree: Tree::new(), rows: Vec::new(), rng, slot, next: 0, top, broken: None };
		tx.send(Some(Force(s))).unwrap();
	}
	std::thread::scope(|s| {
		for (j, rx) in rxs.into_iter().enumerate() {
			let (txs, done) = (txs.clone(), done.clone());
			s.spawn(move || {
				// each thread passes each tree on after a few operations, until the tree has had its share
				while let Ok(Some(Force(mut s))) = rx.recv() {
					if s.rows.len() < n && s.broken.is_none() {
						let m = 1 + s.rng.below(12);
						let r = catch(|| {
							for _ in 0..m {
								s.step()
							}
						});
						s.broken = r.err();
						let _ = txs[(j + 1) % K].send(Some(Force(s)));
					} else {
						let _ = done.send(Force(s));
						if finished.fetch_add(1, SeqCst) == K - 1 {
							for t in &txs {
								let _ = t.send(None);
							}
						}
					}
				}
			});
		}
		drop(done);
	});
	let mut ss: Vec<Sess> = results.into_iter().map(|s| s.get()).collect();
	ss.sort_by_key(|s| s.slot);
	for s in ss {
		s.close()
	}
}

pub fn threads(p: &P) {
	let begin = || Ev::new("begin").n("m", M as i64).s("tag", "threads").s("fam", "threads").b("strict", false).emit();
	begin();
	markers();
	for s in 0..p.count as u64 {
		begin();
		ring(p.seed * 100 + s, p.n);
		lives(p.seed * 100 + s, 3000)
	}
}
