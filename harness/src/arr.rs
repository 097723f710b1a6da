//! The arrays in which nodes keep their items.
//!
//! Their type cannot be named from outside the crate, but a leaf shows its
//! own, which can be cloned.
use crate::arena::Arena;
use crate::ctx::*;
use crate::fams::{HOWS, P};
use crate::out::*;
use crate::tok::*;
use raw_btree::{Node, M};
use std::mem::{forget, ManuallyDrop};

type S = Arena<0>;

fn leaf(n: usize) -> Node<Tok, S> {
	let mut node = Node::<Tok, S>::leaf(None, Tok::new(10));
	if n == 0 {
		if let Node::Leaf(l) = &mut node {
			l.remove(0.into());
		}
	}
	for j in 1..n {
		node.push_right(Tok::new(10 * (j as i64 + 1)), None);
	}
	node
}

fn items_of(node: &Node<Tok, S>) -> &raw_btree::node::LeafNode<Tok, S> {
	match node {
		Node::Leaf(l) => l,
		_ => unreachable!(),
	}
}

fn toks(n: usize) -> Vec<Tok> {
	(0..n).map(|j| Tok::new(5 + 10 * j as i64)).collect()
}

fn shows(v: &[Tok]) -> Vec<It> {
	v.iter().map(Tok::show).collect()
}

/// A range, and how it is written.
type Bounds = (std::ops::Bound<usize>, std::ops::Bound<usize>);

fn bounds(a: usize, b: usize, n: usize, how: usize) -> Bounds {
	use std::ops::Bound::*;
	let lo = match how % 3 {
		0 if a == 0 => Unbounded,
		1 if a > 0 => Excluded(a - 1),
		_ => Included(a),
	};
	let hi = match how / 3 % 3 {
		0 if b == n => Unbounded,
		1 if b > 0 => Included(b - 1),
		_ => Excluded(b),
	};
	(lo, hi)
}

/// An iterator with a size hint of its own.
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> {
		let x = self.0.next();
		if x.is_some() {
			self.1 .0 = self.1 .0.saturating_sub(1);
			self.1 .1 = self.1 .1.map(|n| n.saturating_sub(1))
		}
		x
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		self.1
	}
}

pub fn arrays(p: &P) {
	let cap = M + 1;
	let mut r = Rng::new(p.seed + 90);
	let what = |c: &mut Ctx<S>, h: i64, ev: Ev, m: Option<String>| match m {
		None => c.effects(ev.n("h", h)),
		Some(m) => c.effects(ev.n("h", h)).s("px", &m),
	};
	// a new array of n items under the handle h
	macro_rules! given {
		($c:expr, $h:expr, $n:expr) => {{
			let node = leaf($n);
			let a = items_of(&node).items().clone();
			drop(node);
			$c.reset_logs();
			let ev = Ev::new("a_given").n("h", $h).items("s", a.as_slice().iter().map(Tok::show).collect::<Vec<It>>().as_slice());
			ev.emit();
			ManuallyDrop::new(a)
		}};
	}
	// what an array says
	macro_rules! seen {
		($ev:expr, $a:expr) => {{
			let s: Vec<It> = $a.as_slice().iter().take(40).map(Tok::show).collect();
			let s2: Vec<It> = (&*$a).into_iter().take(40).map(Tok::show).collect();
			let sd: Vec<It> = (0..$a.len().min(40)).filter_map(|i| $a.get(i)).map(Tok::show).collect();
			$ev.items("s", &s).items("s2", &s2).items("sd", &sd).n("n", $a.len().min(1 << 30) as i64).b("e", $a.is_empty())
		}};
	}
	// a call on the array a, under h; the item or nothing it returns
	macro_rules! call {
		($c:expr, $ev:expr, $h:expr, $a:expr, $f:expr) => {{
			$c.reset_logs();
			match catch($f) {
				Ok(x) => {
					let ev = $c.effects($ev.n("h", $h).opt("r", x.as_ref().map(Tok::show)));
					drop(x);
					seen!(ev, $a).emit()
				}
				Err(m) => $c.note_panic($ev, m),
			}
		}};
	}
	// a call that may panic
	macro_rules! may {
		($c:expr, $ev:expr, $h:expr, $a:expr, $f:expr) => {{
			let ev = $ev.n("h", $h);
			$c.reset_logs();
			let pk = catch($f).is_err();
			let ev = $c.effects(ev.b("pk", pk));
			seen!(ev, $a).emit()
		}};
	}
	macro_rules! gone {
		($c:expr, $h:expr, $a:expr) => {{
			$c.reset_logs();
			let a = ManuallyDrop::into_inner($a);
			let m = catch(move || drop(a)).err();
			what(&mut $c, $h, Ev::new("drop"), m).emit();
		}};
	}
	// draining: some steps, then dropped, leaked, or dropped with a panicking destructor
	macro_rules! drain {
		($c:expr, $h:expr, $a:expr, $it:expr, $lo:expr, $hi:expr, $how:expr, $script:expr, $end:expr) => {{
			let n = $a.len();
			let (lo, hi): (usize, usize) = ($lo, $hi);
			let range = bounds(lo, hi, n, $how);
			$c.reset_logs();
			let open = Ev::new("a_drain").n("h", $h).n("it", $it).n("lo1", lo as i64).n("hi1", hi as i64);
			let d = {
				let a: *mut _ = &mut *$a;
				catch(move || unsafe { (*a).drain(range) })
			};
			match d {
				Err(_) => {
					$c.effects(open.b("pk", true)).emit();
				}
				Ok(mut d) => {
					let ev = $c.effects(open.b("pk", false));
					Ctx::<S>::hint(ev, d.size_hint()).emit();
					let mut dead = false;
					for x in $script.chars() {
						let ev = Ev::new(if x == 'f' { "next" } else { "back" }).n("it", $it);
						$c.reset_logs();
						match catch(|| if x == 'f' { d.next() } else { d.next_back() }) {
							Ok(r) => {
								let ev = $c.effects(ev.opt("r", r.as_ref().map(Tok::show)));
								drop(r);
								$c.reset_logs();
								let len = catch(|| d.len().min(1 << 30) as i64).unwrap_or(-7);
								Ctx::<S>::hint(ev.n("len", len), d.size_hint()).emit();
							}
							Err(m) => {
								$c.note_panic(ev, m);
								dead = true;
								break;
							}
						}
					}
					if dead {
						forget(d)
					} else {
						match $end {
							"leak" => {
								forget(d);
								let ev = Ev::new("a_dleak").n("h", $h).n("it", $it);
								seen!(ev, $a).emit()
							}
							"drop" => {
								$c.reset_logs();
								match catch(move || drop(d)) {
									Ok(()) => {
										$c.effects(Ev::new("idrop").n("it", $it)).emit();
										seen!(Ev::new("noop").n("h", $h), $a).emit()
									}
									Err(m) => $c.note_panic(Ev::new("idrop").n("it", $it), m),
								}
							}
							// all that is left is armed
							_ => {
								$c.reset_logs();
								let last = ledger(|l| l.next_id);
								ledger(|l| l.armed = (0..=last).collect());
								let pk = catch(move || drop(d)).is_err();
								ledger(|l| l.armed.clear());
								if pk {
									let ev = $c.effects(Ev::new("a_ddrop_p").n("h", $h).n("it", $it));
									seen!(ev, $a).emit()
								} else {
									$c.effects(Ev::new("idrop").n("it", $it)).emit();
									seen!(Ev::new("noop").n("h", $h), $a).emit()
								}
							}
						}
					}
				}
			}
		}};
	}

	for n in 0..=cap {
		// single calls
		let mut c = Ctx::<S>::begin("arrays", if cfg!(feature = "plain") { 0 } else { DROPS });
		let mut it = 100;
		if p.has("calls") {
			let mut a = given!(c, 1, n);
			let x = Tok::new(3);
			may!(c, Ev::new("a_push").item("x", x.show()), 1, a, || a.push(x));
			for _ in 0..n + 2 {
				call!(c, Ev::new("a_pop"), 1, a, || a.pop());
			}
			gone!(c, 1, a);
			for i in 0..n + 2 {
				let mut a = given!(c, 1, n);
				let x = Tok::new(3);
				may!(c, Ev::new("a_insert").n("i", i as i64).item("x", x.show()), 1, a, || a.insert(i, x));
				call!(c, Ev::new("a_remove").n("i", i as i64), 1, a, || a.remove(i));
				call!(c, Ev::new("a_remove").n("i", 0), 1, a, || a.remove(0));
				gone!(c, 1, a);
				let mut a = given!(c, 1, n);
				c.reset_logs();
				let w = 7 + i as i64;
				let ev = Ev::new("a_write").n("i", i as i64).n("w", w);
				match catch(|| {
					let x = if i % 2 == 0 { a.as_slice_mut().get_mut(i) } else { a.iter_mut().nth(i) };
					x.map(|x| {
						let s = x.show();
						x.v = w;
						s
					})
				}) {
					Ok(s) => {
						let ev = c.effects(ev.n("h", 1).opt("r", s));
						seen!(ev, a).emit()
					}
					Err(m) => c.note_panic(ev, m),
				}
				gone!(c, 1, a);
			}
			for m in 0..=cap {
				let mut a = given!(c, 1, n);
				let mut b = given!(c, 2, m);
				may!(c, Ev::new("a_append").n("h2", 2), 1, a, || a.append(&mut b));
				seen!(Ev::new("noop").n("h", 2), b).emit();
				gone!(c, 1, a);
				gone!(c, 2, b);
			}
			for m in 0..cap + 2 {
				let mut a = given!(c, 1, n);
				let xs = toks(m);
				let hint = (r.below(m + 1), r.chance(1, 2).then_some(m + r.below(2)));
				may!(c, Ev::new("a_extend").items("xs", &shows(&xs)), 1, a, || match m % 2 {
					0 => a.extend(xs),
					_ => a.extend(Hinted(xs.into_iter(), hint)),
				});
				call!(c, Ev::new("a_pop"), 1, a, || a.pop());
				c.reset_logs();
				// an array made from an iterator
				let xs = toks(m);
				let ev = Ev::new("a_collect").n("h", 2).items("xs", &shows(&xs));
				#[allow(unused_assignments)]
				let mut b = ManuallyDrop::new(items_of(&leaf(0)).items().clone());
				c.reset_logs();
				match catch(|| xs.into_iter().collect()) {
					Ok(x) => {
						b = ManuallyDrop::new(x);
						let ev = c.effects(ev.b("pk", false));
						seen!(ev, b).emit();
						gone!(c, 2, b);
					}
					Err(_) => c.effects(ev.b("pk", true)).emit(),
				}
				gone!(c, 1, a);
			}
			let mut a = given!(c, 1, n);
			for _ in 0..2 {
				c.reset_logs();
				let m = catch(|| a.clear()).err();
				let ev = what(&mut c, 1, Ev::new("clear"), m);
				seen!(ev, a).emit();
			}
			for i in 0..cap + 1 {
				let x = Tok::new(i as i64);
				may!(c, Ev::new("a_push").item("x", x.show()), 1, a, || a.push(x));
			}
			gone!(c, 1, a);
			// the parts
			let a = given!(c, 1, n);
			c.reset_logs();
			let a = ManuallyDrop::into_inner(a);
			match catch(move || a.into_raw_parts()) {
				Ok((len, mut buffer)) => {
					let ev = c.effects(Ev::new("a_parts").n("h", 1).n("num", len.min(1 << 30) as i64));
					let s: Vec<It> = buffer.iter().take(len).map(|x| unsafe { x.assume_init_ref() }.show()).collect();
					ev.items("r", &s).emit();
					for x in buffer.iter_mut().take(len) {
						unsafe { x.assume_init_drop() }
					}
				}
				Err(m) => c.note_panic(Ev::new("a_parts"), m),
			}
			// clones
			let a = given!(c, 1, n);
			c.reset_logs();
			match catch(|| (*a).clone()) {
				Ok(b) => {
					let b = ManuallyDrop::new(b);
					let cl = ledger(|l| std::mem::take(&mut l.clones));
					let ev = c.effects(Ev::new("clone").n("h", 1).n("h2", 2).raw("cl", list(cl, |x| format!("[{},{}]", x.0, x.1))));
					seen!(ev, b).emit();
					seen!(Ev::new("noop").n("h", 1), a).emit();
					gone!(c, 1, a);
					seen!(Ev::new("noop").n("h", 2), b).emit();
					gone!(c, 2, b);
				}
				Err(m) => c.note_panic(Ev::new("clone"), m),
			}
		}
		// panicking clones and destructors
		if p.has("faults") {
			for k in 0..n {
				let a = given!(c, 1, n);
				c.reset_logs();
				ledger(|l| l.clone_fuse = Some(k));
				match catch(|| (*a).clone()) {
					Ok(b) => forget(b),
					Err(_) => {
						let made: Vec<i64> = ledger(|l| l.clones.iter().map(|c| c.1).collect());
						let ev = c.effects(Ev::new("clone_p").n("h", 1).ints("made", &made));
						seen!(ev, a).emit()
					}
				}
				ledger(|l| l.clone_fuse = None);
				gone!(c, 1, a);
				// into an array that exists
				let a = given!(c, 1, n);
				let mut b = given!(c, 2, r.below(cap + 1));
				c.reset_logs();
				ledger(|l| l.clone_fuse = Some(k));
				let pk = catch(|| (*b).clone_from(&*a)).is_err();
				ledger(|l| l.clone_fuse = None);
				if pk {
					let made: Vec<i64> = ledger(|l| l.clones.iter().map(|c| c.1).collect());
					let ev = c.effects(Ev::new("clone_into_p").n("h", 1).n("h2", 2).ints("made", &made));
					seen!(ev, b).emit();
					seen!(Ev::new("noop").n("h", 1), a).emit();
					let x = Tok::new(3);
					may!(c, Ev::new("a_push").item("x", x.show()), 2, b, || b.push(x));
					gone!(c, 2, b);
					gone!(c, 1, a);
				} else {
					forget((a, b));
					return;
				}
			}
			// items from an iterator that panics after some
			for k in 0..cap + 2 - n {
				let mut a = given!(c, 1, n);
				let xs = toks(k);
				let ev = Ev::new("a_extend_p").n("h", 1).items("xs", &shows(&xs));
				c.reset_logs();
				let mut xs = xs.into_iter();
				let least = [0, k + 1, r.below(k + 2), k + 1][r.below(4)];
				let more = r.chance(1, 2).then_some(k + 1);
				let _ = catch(|| a.extend(Hinted(std::iter::from_fn(|| Some(xs.next().unwrap_or_else(|| panic!("as told")))), (least, more))));
				let ev = c.effects(ev);
				seen!(ev, a).emit();
				drop(xs);
				gone!(c, 1, a);
			}
			for k in 0..n {
				for kind in ["clear", "drop", "into"] {
					let mut a = given!(c, 1, n);
					let mut arm = vec![a[k].id];
					if k + 2 < n && kind != "into" && r.chance(1, 2) {
						arm.push(a[k + 2].id)
					}
					c.reset_logs();
					ledger(|l| l.armed = arm.into_iter().collect());
					match kind {
						"clear" => {
							let pk = catch(|| a.clear()).is_err();
							let ev = c.effects(Ev::new(if pk { "clear_p" } else { "clear" }).n("h", 1));
							ledger(|l| l.armed.clear());
							seen!(ev, a).emit();
							gone!(c, 1, a);
						}
						"drop" => {
							let a = ManuallyDrop::into_inner(a);
							let pk = catch(move || drop(a)).is_err();
							ledger(|l| l.armed.clear());
							c.effects(Ev::new(if pk { "drop_p" } else { "drop" }).n("h", 1)).emit()
						}
						_ => {
							it += 1;
							let a = ManuallyDrop::into_inner(a);
							let i = a.into_iter();
							Ev::new("iter").n("h", 1).n("it", it).s("kind", "into").emit();
							let pk = catch(move || drop(i)).is_err();
							ledger(|l| l.armed.clear());
							c.effects(Ev::new(if pk { "idrop_p" } else { "idrop" }).n("it", it)).emit();
						}
					}
				}
			}
		}
		// draining
		if p.has("drain") {
			for lo in 0..=n + 1 {
				for hi in 0..=n + 2 {
					for end in ["drop", "drop", "leak", "panic"] {
						if c.dead {
							break;
						}
						if end != "drop" && !p.has("faults") {
							continue;
						}
						let mut a = given!(c, 1, n);
						it += 1;
						let k = r.below(hi.saturating_sub(lo) + 2);
						let script: String = (0..k).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect();
						drain!(c, 1, a, it, lo, hi, r.below(9), script, end);
						// and used afterwards
						let x = Tok::new(3);
						if !c.dead {
							may!(c, Ev::new("a_push").item("x", x.show()), 1, a, || a.push(x));
							call!(c, Ev::new("a_pop"), 1, a, || a.pop());
						}
						gone!(c, 1, a);
					}
				}
			}
		}
		// many steps in one call
		if p.has("bulk") {
			for how in HOWS {
				for _ in 0..p.count.max(1) {
					if c.dead {
						break;
					}
					let some = |r: &mut Rng| -> String { (0..r.below(n.min(4) + 1)).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect() };
					let (before, after) = (some(&mut r), some(&mut r));
					let k = r.below(n + 2).max((how == "step") as usize);
					it += 1;
					let a = given!(c, 1, n);
					let open = Ev::new("iter").n("h", 1).n("it", it).s("kind", "into");
					let a = ManuallyDrop::into_inner(a);
					c.bulk_with(|| a.into_iter(), |x| x.show(), (1, it), open, (&before, &after), how, k, 0, r.chance(1, 5));
					it += 1;
					let mut a = given!(c, 1, n);
					let lo = r.below(n + 1);
					let hi = lo + r.below(n - lo + 1);
					let open = Ev::new("a_drain").n("h", 1).n("it", it).n("lo1", lo as i64).n("hi1", hi as i64).b("pk", false);
					let range = bounds(lo, hi, n, r.below(9));
					{
						let a: &mut _ = &mut *a;
						c.bulk_with(|| a.drain(range), |x| x.show(), (1, it), open, (&before, &after), how, k, 0, false);
					}
					if !c.dead {
						seen!(Ev::new("noop").n("h", 1), a).emit();
						gone!(c, 1, a);
					}
				}
			}
		}
	}

	// histories over a few arrays
	for s in 0..p.count * p.has("histories") as usize {
		let mut c = Ctx::<S>::begin("arrays", if cfg!(feature = "plain") { 0 } else { DROPS });
		let mut it = 100;
		let mut v = vec![];
		for h in 0..3 {
			v.push(given!(c, h, (s + 3 * h as usize) % (cap + 1)))
		}
		for _ in 0..p.n {
			if c.dead {
				break;
			}
			let h = r.below(3);
			let hh = h as i64;
			let n = v[h].len();
			let x = Tok::new(r.below(100) as i64);
			match r.below(10) {
				0 | 1 => {
					let a = &mut *v[h];
					may!(c, Ev::new("a_push").item("x", x.show()), hh, a, || a.push(x))
				}
				2 | 3 => {
					let i = r.below(n + 2);
					let a = &mut *v[h];
					may!(c, Ev::new("a_insert").n("i", i as i64).item("x", x.show()), hh, a, || a.insert(i, x))
				}
				4 => {
					let a = &mut *v[h];
					call!(c, Ev::new("a_pop"), hh, a, || a.pop())
				}
				5 => {
					let i = r.below(n + 1);
					let a = &mut *v[h];
					call!(c, Ev::new("a_remove").n("i", i as i64), hh, a, || a.remove(i))
				}
				6 => {
					let g = (h + 1) % 3;
					let (l, u) = v.split_at_mut(h.max(g));
					let (a, b) = if h < g { (&mut *l[h], &mut *u[0]) } else { (&mut *u[0], &mut *l[g]) };
					may!(c, Ev::new("a_append").n("h2", g as i64), hh, a, || a.append(b));
				}
				7 => {
					let xs = toks(r.below(4));
					let a = &mut *v[h];
					may!(c, Ev::new("a_extend").items("xs", &shows(&xs)), hh, a, || a.extend(xs))
				}
				8 => {
					let lo = r.below(n + 1);
					let hi = lo + r.below(n - lo + 1);
					let script: String = (0..r.below(4)).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect();
					it += 1;
					let a = &mut *v[h];
					drain!(c, hh, a, it, lo, hi, r.below(9), script, "drop");
				}
				_ => {
					// clones over another
					let g = (h + 1) % 3;
					c.reset_logs();
					let ev = Ev::new("clone_into").n("h", hh).n("h2", g as i64);
					let mut b = std::mem::replace(&mut v[g], ManuallyDrop::new(items_of(&leaf(0)).items().clone()));
					c.reset_logs();
					match catch(|| (*b).clone_from(&*v[h])) {
						Ok(()) => {
							let cl = ledger(|l| std::mem::take(&mut l.clones));
							let ev = c.effects(ev.raw("cl", list(cl, |x| format!("[{},{}]", x.0, x.1))));
							v[g] = b;
							seen!(ev, v[g]).emit()
						}
						Err(m) => c.note_panic(Ev::new("clone_into"), m),
					}
				}
			}
		}
		for (h, a) in v.into_iter().enumerate() {
			if !c.dead {
				gone!(c, h as i64, a);
			}
		}
	}
}
