//! Instrumented items: every destructor and clone call is recorded.
use std::cell::RefCell;
use std::collections::HashSet;

pub type It = [i64; 3];

#[derive(Default)]
pub struct Ledger {
	pub next_id: i64,
	pub drops: Vec<i64>,
	pub clones: Vec<(i64, i64)>,
	/// Ids whose destructor panics (once).
	pub armed: HashSet<i64>,
	/// Number of clones before one panics.
	pub clone_fuse: Option<usize>,
}

thread_local! {
	pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
	LEDGER.with(|l| f(&mut l.borrow_mut()))
}

pub fn fresh_id() -> i64 {
	ledger(|l| {
		l.next_id += 1;
		l.next_id
	})
}

/// An item: key, identity, mutable value.
#[derive(Debug)]
pub struct Tok {
	pub k: i64,
	pub id: i64,
	pub v: i64,
}

impl Tok {
	pub fn new(k: i64) -> Self {
		Tok { k, id: fresh_id(), v: 0 }
	}

	pub fn show(&self) -> It {
		[self.k, self.id, self.v]
	}
}

impl std::fmt::Display for Tok {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(&text(self.id, DECORATED.with(|d| d.get())))
	}
}

thread_local! {
	/// Whether items are displayed with characters that mean something in DOT.
	pub static DECORATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// What an item displays as.
pub fn text(id: i64, decorated: bool) -> String {
	let (a, b) = match (decorated, id.rem_euclid(8)) {
		(true, 0) => ("", "\""),
		(true, 1) => ("\\", "\\"),
		(true, 2) => ("{", "}"),
		(true, 3) => ("a|b", "|"),
		(true, 4) => ("<c1>", "> -> <"),
		(true, 5) => ("\"];", "é\\\"("),
		(true, 6) => ("}(7)\\N", "\\{\\"),
		_ => ("", ""),
	};
	format!("{a}I{id}I{b}")
}

#[cfg(not(feature = "plain"))]
impl Drop for Tok {
	fn drop(&mut self) {
		let boom = ledger(|l| {
			l.drops.push(self.id);
			l.armed.remove(&self.id)
		});
		if boom && !std::thread::panicking() {
			panic!("destructor of item {}", self.id)
		}
	}
}

impl Clone for Tok {
	fn clone(&self) -> Self {
		let id = ledger(|l| {
			if let Some(n) = &mut l.clone_fuse {
				if *n == 0 {
					l.clone_fuse = None;
					return None;
				}
				*n -= 1;
			}
			l.next_id += 1;
			l.clones.push((self.id, l.next_id));
			Some(l.next_id)
		});
		match id {
			Some(id) => Tok { k: self.k, id, v: self.v },
			None => panic!("clone of item {}", self.id),
		}
	}
}

pub fn cmp(a: &Tok, b: &Tok) -> std::cmp::Ordering {
	a.k.cmp(&b.k)
}

pub fn kcmp(a: &Tok, k: &i64) -> std::cmp::Ordering {
	a.k.cmp(k)
}

/// The class of a key: equal under the coarser order of width `c` (the opposite order, if negative).
pub fn class(k: i64, c: i64) -> i64 {
	if c < 0 {
		-k.div_euclid(-c)
	} else {
		k.div_euclid(c)
	}
}
