//! Families of histories.
use crate::arena::*;
use crate::ctx::*;
use crate::out::*;
use crate::tok::*;
use raw_btree::RawBTree;
use std::collections::HashSet;

/// A history of positions: `(true, gap)` inserts, `(false, position)` removes.
pub type Hist = Vec<(bool, usize)>;

pub struct P {
	pub seed: u64,
	/// Size of the histories.
	pub n: usize,
	/// Number of sessions.
	pub count: usize,
	pub obs: u32,
	/// Heavy observations are made every so many events.
	pub every: usize,
	pub corpus: Vec<Hist>,
	pub only: HashSet<String>,
}

impl P {
	pub fn has(&self, x: &str) -> bool {
		self.only.is_empty() || self.only.contains(x)
	}
}

/// Keys for a history: the rank of each item among all the items that it ever
/// inserts, times ten.
pub fn keys_of(hist: &Hist) -> Vec<i64> {
	let mut order: Vec<(usize, bool)> = Vec::new(); // (operation, alive)
	let mut removed: Vec<usize> = Vec::new();
	for (i, (ins, g)) in hist.iter().enumerate() {
		let mut alive = 0;
		let mut at = order.len();
		for (x, (_, a)) in order.iter().enumerate() {
			if *a {
				if alive == *g {
					at = x;
					break;
				}
				alive += 1;
			}
		}
		if *ins {
			order.insert(at, (i, true));
			removed.push(0)
		} else {
			order[at].1 = false;
			removed.push(order[at].0)
		}
	}
	let mut keys = vec![0; hist.len()];
	for (x, (op, _)) in order.iter().enumerate() {
		keys[*op] = 10 * (x as i64 + 1)
	}
	for (i, (ins, _)) in hist.iter().enumerate() {
		if !ins {
			keys[i] = keys[removed[i]]
		}
	}
	keys
}

/// The keys left by a history.
fn kept(hist: &Hist) -> Vec<i64> {
	let keys = keys_of(hist);
	let mut set = std::collections::BTreeSet::new();
	for (i, (ins, _)) in hist.iter().enumerate() {
		if *ins {
			set.insert(keys[i]);
		} else {
			set.remove(&keys[i]);
		}
	}
	set.into_iter().collect()
}

/// Builds a tree by a history, without recording.
pub fn build<S: St>(hist: &Hist) -> Result<RawBTree<Tok, S>, String> {
	let keys = keys_of(hist);
	let mut t = std::mem::ManuallyDrop::new(RawBTree::<Tok, S>::new());
	catch(|| {
		for (i, (ins, _)) in hist.iter().enumerate() {
			if *ins {
				t.insert(cmp, Tok::new(keys[i]));
			} else {
				t.remove(kcmp, &keys[i]);
			}
		}
	})?;
	Ok(std::mem::ManuallyDrop::into_inner(t))
}

/// Puts a tree built by a history in the session.
pub fn give<S: St>(c: &mut Ctx<S>, h: i64, hist: &Hist) -> Option<Dump<S>> {
	if c.dead {
		return None;
	}
	match build::<S>(hist) {
		Ok(t) => {
			let keys = kept(hist);
			Some(c.given(h, t, &keys))
		}
		Err(m) => {
			c.note_panic(Ev::new("build").n("h", h), m);
			None
		}
	}
}

/// Keys present and keys falling in each gap.
fn probes(d: &[It]) -> (Vec<i64>, Vec<i64>) {
	let present: Vec<i64> = d.iter().map(|x| x[0]).collect();
	let mut absent = vec![present.first().copied().unwrap_or(10) - 5];
	absent.extend(present.iter().map(|k| k + 5));
	(present, absent)
}

fn all_keys(d: &[It]) -> Vec<i64> {
	let (mut p, a) = probes(d);
	p.extend(a);
	p.sort();
	p
}

// ---- keyed histories ----

/// Long random histories of keyed operations.
pub fn keyed<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + s as u64);
		let mut c = Ctx::<S>::begin("keyed", p.obs);
		let span = [8, 20, 60, 200, 600][(s + p.seed as usize) % 5].min(p.n.max(8));
		c.new_tree(1);
		// growing, churning, shrinking, in turn
		let mut phase = 0;
		let heavy = p.obs;
		let mut lookups: Vec<i64> = Vec::new();
		for i in 0..p.n {
			if c.dead {
				break;
			}
			if i % (span.max(20)) == 0 {
				phase = r.below(3)
			}
			c.obs = if p.every <= 1 || i % p.every == 0 || i + 1 == p.n { heavy } else { heavy & !(CONTENT | DUMP | OTHERS | STRICT | VALID | STORE) };
			if heavy & STORE != 0 {
				c.obs |= STORE;
			}
			let k = r.below(span) as i64;
			let ins = match phase {
				0 => 8,
				1 => 5,
				_ => 2,
			};
			match r.below(16) {
				x if x < ins => c.insert(1, k),
				x if x < 10 => c.remove(1, k),
				10 | 11 => c.get(1, k),
				12 if p.has("getm") => c.get_mut(1, k, 100 + i as i64),
				13 if p.has("ends") => {
					c.ends(1);
				}
				14 if p.has("endm") => c.end_mut(1, r.chance(1, 2), 1000 + i as i64),
				15 if p.has("addr") && p.obs & DUMP != 0 && c.obs == heavy => {
					c.address_of(1, k);
				}
				_ => {
					lookups.clear();
					lookups.extend((0..span.min(12)).map(|_| r.below(span) as i64 - 1));
					c.gets(1, &lookups)
				}
			}
		}
		c.obs = heavy;
		if !c.dead {
			c.gets(1, &(-1..=span as i64).collect::<Vec<_>>());
		}
		if !c.dead {
			c.drop_tree(1);
		}
	}
}

/// Grows then shrinks, in a structured order.
pub fn grow<S: St>(p: &P) {
	let n = p.n as i64;
	let asc: Vec<i64> = (0..n).collect();
	let desc: Vec<i64> = (0..n).rev().collect();
	let alt: Vec<i64> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
	let inside: Vec<i64> = alt.iter().rev().copied().collect();
	let mut r = Rng::new(p.seed);
	let mut mixed = asc.clone();
	for i in (1..mixed.len()).rev() {
		mixed.swap(i, r.below(i + 1))
	}
	let orders = [asc, desc, alt, inside, mixed];
	let mut j = 0;
	for (a, up) in orders.iter().enumerate() {
		for (b, down) in orders.iter().enumerate() {
			j += 1;
			if p.count < 25 && (j + p.seed as usize) % 25 >= p.count && a != b {
				continue;
			}
			let mut c = Ctx::<S>::begin("grow", p.obs);
			c.new_tree(1);
			let mut i = 0;
			for k in up {
				if c.dead {
					break;
				}
				i += 1;
				c.obs = light(p, i);
				c.insert(1, *k)
			}
			c.obs = p.obs;
			if !c.dead {
				c.gets(1, &(-1..=n).collect::<Vec<_>>());
			}
			for k in down {
				if c.dead {
					break;
				}
				i += 1;
				c.obs = light(p, i);
				c.remove(1, *k);
			}
			c.obs = p.obs;
			if !c.dead {
				c.drop_tree(1);
			}
		}
	}
}

fn light(p: &P, i: usize) -> u32 {
	if p.every <= 1 || i % p.every == 0 {
		p.obs
	} else {
		p.obs & !(CONTENT | DUMP | OTHERS | VALID)
	}
}

/// From each tree of the corpus, each keyed operation once.
pub fn steps<S: St>(p: &P) {
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("steps", p.obs);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let (present, absent) = probes(&d.inorder());
		let all = all_keys(&d.inorder());
		let sweep = p.has("sweep");
		if p.has("get") {
			if sweep {
				c.gets(1, &all)
			}
			for k in &all {
				if c.dead {
					break;
				}
				if sweep {
					c.get(1, *k)
				}
				if p.has("addr") && p.obs & DUMP != 0 {
					c.address_of(1, *k);
				}
			}
		}
		let step = |c: &mut Ctx<S>, f: &mut dyn FnMut(&mut Ctx<S>)| {
			if c.dead || give(c, 1, hist).is_none() {
				return;
			}
			f(c);
			if sweep && !c.dead {
				c.gets(1, &all)
			}
			if c.obs & DROPS != 0 && !c.dead {
				// the rest must still be there to be dropped
				c.drop_tree(1)
			}
		};
		if p.has("insert") {
			for k in absent.iter().chain(&present) {
				step(&mut c, &mut |c| c.insert(1, *k))
			}
		}
		if p.has("remove") {
			for k in present.iter().chain(&absent) {
				step(&mut c, &mut |c| c.remove(1, *k))
			}
		}
		if p.has("getm") {
			for k in &all {
				step(&mut c, &mut |c| c.get_mut(1, *k, 7))
			}
		}
		if p.has("endm") {
			step(&mut c, &mut |c| c.end_mut(1, false, 7));
			step(&mut c, &mut |c| c.end_mut(1, true, 7));
			step(&mut c, &mut |c| c.ends(1));
		}
	}
}

// ---- orders in which several items are equal ----

/// From each tree of the corpus, each keyed operation once under some coarser order.
pub fn coarse<S: St>(p: &P) {
	for (n, hist) in p.corpus.iter().enumerate() {
		let mut r = Rng::new(p.seed * 1000 + 700 + n as u64);
		let mut c = Ctx::<S>::begin("coarse", p.obs);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let s = d.inorder();
		let w = [15, 20, 30, 50, 90, 100_000][r.below(6)];
		let mut all: Vec<i64> = s.iter().map(|x| x[0]).collect();
		all.dedup_by_key(|k| crate::tok::class(*k, w));
		let (a, b) = (all.first().copied().unwrap_or(0), all.last().copied().unwrap_or(0));
		all.push(a - w);
		all.push(b + w);
		for k in &all {
			if c.dead {
				break;
			}
			if p.has("get") {
				c.get_c(1, *k, w)
			}
			if p.has("addr") && !c.dead {
				c.address_of_c(1, *k, w);
			}
		}
		let step = |c: &mut Ctx<S>, f: &mut dyn FnMut(&mut Ctx<S>)| {
			if !c.dead && give(c, 1, hist).is_some() {
				f(c)
			}
		};
		for k in &all {
			if p.has("insert") {
				step(&mut c, &mut |c| c.insert_c(1, *k + r.below(3) as i64, w));
			}
			if p.has("remove") {
				// one of the equals after another
				step(&mut c, &mut |c| for _ in 0..40 {
					if c.dead || !c.remove_c(1, *k, w) {
						break;
					}
				});
			}
			if p.has("getm") {
				step(&mut c, &mut |c| c.get_mut_c(1, *k, w, 7));
			}
		}
	}
}

/// Long random histories under one coarser order, with equals put beside each other.
pub fn crand<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 800 + s as u64);
		let mut c = Ctx::<S>::begin("crand", p.obs);
		let span = [8, 20, 60, 200, 600][(s + p.seed as usize) % 5].min(p.n.max(8));
		let w = [3, -3, 10, 50, -1, -7, 1][(s + p.seed as usize) % 7];
		c.new_tree(1);
		let mut phase = 0;
		let heavy = p.obs;
		for i in 0..p.n {
			if c.dead {
				break;
			}
			if i % (span.max(20)) == 0 {
				phase = r.below(3)
			}
			let look = p.every <= 1 || i % p.every == 0 || i + 1 == p.n;
			let k = r.below(span) as i64;
			let ins = [9, 6, 2][phase];
			let kind = r.below(18);
			// what is about addresses needs the structure
			let beside = kind < ins && kind % 3 != 0;
			c.obs = if look { heavy } else { heavy & !(CONTENT | DUMP | OTHERS | STRICT | VALID) };
			match kind {
				_ if beside => {
					c.obs |= DUMP;
					let a = c.address_of_c(1, k, w);
					if !c.dead {
						c.insert_at(1, a, Tok::new(k), false);
					}
				}
				x if x < ins => c.insert_c(1, k, w),
				x if x < 11 => {
					c.remove_c(1, k, w);
				}
				11..=13 => c.get_c(1, k, w),
				14 | 15 => c.get_mut_c(1, k, w, 100 + i as i64),
				_ => {
					c.obs |= DUMP;
					c.address_of_c(1, k, w);
				}
			}
		}
		c.obs = heavy;
		if !c.dead {
			c.iterate(1, 20, &[(0, 'f')]);
		}
		if !c.dead {
			c.drop_tree(1);
		}
	}
}

// ---- positions ----

/// From each tree of the corpus, each positional operation once.
pub fn psteps<S: St>(p: &P) {
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("psteps", p.obs | DUMP);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		if d.bad {
			continue;
		}
		let addrs = d.addrs();
		macro_rules! step {
			(|$c:ident| $f:expr) => {
				if !c.dead && give(&mut c, 1, hist).is_some() {
					let $c = &mut c;
					$f;
				}
			};
		}
		if p.has("insert") {
			for a in addrs.iter().filter(|a| a[1] >= 0) {
				step!(|c| c.insert_at(1, Some(*a), Tok::new(1), false));
				if d.leaf(*a) {
					step!(|c| c.insert_at(1, Some(*a), Tok::new(1), true));
				} else if c.dead {
					break;
				} else {
					step!(|c| c.insert_refused(1, *a));
					if !c.dead {
						// still usable
						c.insert_at(1, Some(*a), Tok::new(1), false);
					}
				}
			}
			if addrs.is_empty() {
				step!(|c| c.insert_at(1, None, Tok::new(1), false));
				step!(|c| c.insert_at(1, None, Tok::new(1), true));
			}
		}
		if p.has("remove") {
			for a in &addrs {
				step!(|c| {
					if let Some((t, ra)) = c.remove_at(1, *a) {
						reinsert(c, 1, t, ra)
					}
				});
			}
		}
		if p.has("replace") {
			for a in addrs.iter().filter(|a| a[1] >= 0 && a[1] < d.count(**a)) {
				step!(|c| c.replace_at(1, *a, 3));
			}
		}
		if p.has("write") {
			for a in &addrs {
				step!(|c| c.write_at(1, *a, 8));
			}
		}
		if p.has("nav") {
			step!(|c| c.nav(1));
		}
	}
}

fn reinsert<S: St>(c: &mut Ctx<S>, h: i64, t: Tok, ra: Option<Addr<S>>) {
	if c.dead {
		return;
	}
	let d = c.dump(h);
	let a = match ra {
		None if d.ids.is_empty() => None,
		Some(a) => match d.enc(a)[..] {
			[n, o] if n > 0 && o >= 0 && o <= d.count([n, o]) => Some([n, o]),
			_ => return,
		},
		None => return,
	};
	c.insert_at(h, a, t, false);
}

/// Navigation tables only.
pub fn nav<S: St>(p: &P) {
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("nav", p.obs | DUMP);
		if give(&mut c, 1, hist).is_some() {
			c.nav(1)
		}
	}
}

/// Long random histories of positional operations.
pub fn prand<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 500 + s as u64);
		let mut c = Ctx::<S>::begin("prand", p.obs | DUMP);
		c.new_tree(1);
		let mut phase = 0;
		let target = [6, 20, 60, 150][(s + p.seed as usize) % 4].min(p.n);
		for i in 0..p.n {
			if c.dead {
				break;
			}
			let d = c.dump(1);
			if d.bad {
				break;
			}
			if i % target.max(15) == 0 {
				phase = r.below(3)
			}
			if i % 40 == 39 && p.has("nav") && d.ids.len() < 30 {
				c.nav(1)
			}
			if d.ids.is_empty() {
				c.insert_at(1, None, Tok::new(1), r.chance(1, 2));
				continue;
			}
			let addrs = d.addrs();
			let a = addrs[r.below(addrs.len())];
			let ins = [7, 5, 3][phase];
			match r.below(12) {
				x if x < ins => {
					if a[1] >= 0 {
						c.insert_at(1, Some(a), Tok::new(1), d.leaf(a) && r.chance(1, 2));
					}
				}
				x if x < 9 => {
					if let Some((t, ra)) = c.remove_at(1, a) {
						if r.chance(1, 4) {
							reinsert(&mut c, 1, t, ra)
						}
					}
				}
				9 if a[1] >= 0 && a[1] < d.count(a) => c.replace_at(1, a, 2),
				10 => c.write_at(1, a, i as i64),
				11 if a[1] >= 0 && !d.leaf(a) => c.insert_refused(1, a),
				_ => c.iterate(1, 20, &[(0, 'f'), (0, 'b')]),
			}
		}
		if !c.dead {
			c.drop_tree(1)
		}
	}
}

// ---- iterators ----

fn scripts(n: usize, r: &mut Rng, extra: usize) -> Vec<String> {
	let len = n + 2;
	if len <= 6 {
		(0..1usize << len).map(|m| (0..len).map(|b| if m >> b & 1 == 1 { 'b' } else { 'f' }).collect()).collect()
	} else {
		let mut v: Vec<String> = vec!["f".repeat(len), "b".repeat(len)];
		v.push((0..len).map(|i| if i % 2 == 0 { 'f' } else { 'b' }).collect());
		for _ in 0..extra {
			let bias = r.below(5) + 1;
			v.push((0..len).map(|_| if r.below(6) < bias { 'f' } else { 'b' }).collect())
		}
		v
	}
}

/// Iterators over each tree of the corpus.
pub fn iters<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 99);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("iters", p.obs);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let n = d.inorder().len();
		let mut it = 10;
		let some = scripts(n, &mut r, 3);
		for sc in &some {
			if c.dead {
				break;
			}
			it += 1;
			if p.has("iter") {
				c.iterate(1, it, &sc.chars().map(|x| (0, x)).collect::<Vec<_>>())
			}
		}
		if p.has("copy") {
			for _ in 0..3 {
				if c.dead {
					break;
				}
				it += 10;
				let mut sc = Vec::new();
				for _ in 0..2 * n + 4 {
					sc.push((r.below(4), ['f', 'b', 'f', 'b', 'c'][r.below(5)]))
				}
				for w in 0..4 {
					sc.push((w, 'f'));
					sc.push((w, 'b'))
				}
				// at most a few copies
				let mut copies = 0;
				sc.retain(|(_, x)| {
					copies += (*x == 'c') as usize;
					*x != 'c' || copies <= 3
				});
				c.iterate(1, it, &sc);
			}
			it += 10;
		}
		if p.has("mut") {
			for (j, sc) in some.iter().enumerate() {
				if c.dead {
					break;
				}
				if some.len() > 20 && j % 3 != 0 {
					continue;
				}
				it += 1;
				c.iterate_mut(1, it, sc, 100 * j as i64, j % 2 == 0)
			}
		}
		if p.has("into") {
			for (j, sc) in some.iter().enumerate() {
				if c.dead {
					break;
				}
				if some.len() > 20 && j % 3 != 1 {
					continue;
				}
				if give(&mut c, 1, hist).is_none() {
					break;
				}
				it += 1;
				c.into_iter(1, it);
				// abandoned at some point, or run to the end
				let upto = if j % 2 == 0 { sc.len() } else { r.below(sc.len()) };
				for x in sc.chars().take(upto) {
					if c.dead {
						break;
					}
					c.into_step(it, x == 'f')
				}
				if !c.dead {
					c.into_drop(it)
				}
			}
		}
		if p.has("partial") {
			// dropped after every number of steps at both ends
			for f in 0..=n {
				for b in 0..=n - f {
					if c.dead || (n > 6 && !r.chance(40, n * n)) || give(&mut c, 1, hist).is_none() {
						continue;
					}
					it += 1;
					c.into_iter(1, it);
					for j in 0..f + b {
						if !c.dead {
							c.into_step(it, if r.chance(1, 2) { j < f } else { j >= b });
						}
					}
					if !c.dead {
						c.into_drop(it)
					}
				}
			}
		}
	}
}

pub const HOWS: [&str; 31] = [
	"nth", "nth_back", "find", "rfind", "position", "any", "take", "last", "count", "fold", "each", "collect", "rfold", "rev",
	"step", "rev_skip", "skip", "least", "most", "reduce", "find_map", "all", "rposition", "try_fold", "try_rfold", "fold_p", "each_p",
	"rfold_p", "find_p", "any_p", "collect_p",
];

/// The provided methods of the iterators over each tree of the corpus.
pub fn bulks<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 77);
	let kinds: Vec<&str> = ["iter", "mut", "into"].into_iter().filter(|k| p.has(k)).collect();
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("bulks", p.obs);
		let mut it = 10;
		let mut n = None;
		let some = |r: &mut Rng, n: usize| -> String { (0..r.below(n.min(6) + 1)).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect() };
		for how in HOWS {
			for kind in &kinds {
				for _ in 0..p.count.max(1) {
					if c.dead {
						break;
					}
					if n.is_none() || *kind == "into" {
						n = give(&mut c, 1, hist).map(|d| d.inorder().len());
					}
					let Some(size) = n else { break };
					if *kind == "into" {
						n = None
					}
					it += 1;
					let before = if r.chance(1, 3) { String::new() } else { some(&mut r, size) };
					let after = some(&mut r, size + 2);
					let lo = (how == "step") as usize;
					let k = match r.below(4) {
						0 => lo + r.below(2),
						1 => lo + r.below(size + 2),
						2 => lo + r.below(4),
						_ => size.saturating_sub(before.len() + r.below(2)).max(lo),
					};
					let w = if *kind == "mut" { it } else { 0 };
					c.bulk(1, it, kind, &before, how, k, &after, w, r.chance(1, 5));
				}
			}
		}
		// a leaked owning iterator
		for j in 0..2 {
			if p.has("into") && !c.dead && give(&mut c, 1, hist).is_some() {
				it += 1;
				c.into_iter(1, it);
				if j == 1 && !c.dead {
					c.into_step(it, true)
				}
				if !c.dead {
					c.into_leak(it, 1)
				}
			}
		}
	}
}

// ---- large trees ----

/// How a large tree comes to be, unrecorded: keys are multiples of ten.
fn big_tree<S: St>(n: usize, kind: usize, r: &mut Rng) -> Result<(RawBTree<Tok, S>, Vec<i64>), String> {
	let total = if kind >= 4 { 2 * n } else { n };
	let mut ks: Vec<i64> = (0..total as i64).map(|i| 10 * i).collect();
	match kind {
		0 => (),
		1 => ks.reverse(),
		// from the outside in
		2 => ks = (0..total).map(|i| if i % 2 == 0 { 10 * (i / 2) as i64 } else { 10 * (total - 1 - i / 2) as i64 }).collect(),
		_ => {
			for i in (1..ks.len()).rev() {
				ks.swap(i, r.below(i + 1))
			}
		}
	}
	let gone: Vec<i64> = match kind {
		// a run of keys
		4 => {
			let a = 10 * r.below(total - n + 1) as i64;
			(0..(total - n) as i64).map(|i| a + 10 * i).collect()
		}
		// every other key
		5 => (0..(total - n) as i64).map(|i| 20 * i + 10).collect(),
		// any keys
		6 => {
			let mut v = ks.clone();
			for i in (1..v.len()).rev() {
				v.swap(i, r.below(i + 1))
			}
			v.truncate(total - n);
			v
		}
		_ => Vec::new(),
	};
	let mut t = std::mem::ManuallyDrop::new(RawBTree::<Tok, S>::new());
	catch(|| {
		for k in &ks {
			t.insert(cmp, Tok::new(*k));
		}
		for k in &gone {
			t.remove(kcmp, k);
		}
	})?;
	let gone: HashSet<i64> = gone.into_iter().collect();
	ks.retain(|k| !gone.contains(k));
	ks.sort();
	Ok((std::mem::ManuallyDrop::into_inner(t), ks))
}

/// Large trees: runs of neighbouring insertions and removals, and everything else now and then.
pub fn big<S: St>(p: &P) {
	let sizes = [40, 90, 170, 300, 600, 1000, 2000, 4000];
	let top = sizes.iter().filter(|s| **s <= p.n).count().max(1);
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 1300 + s as u64);
		let mut c = Ctx::<S>::begin("big", p.obs);
		let n = sizes[(s + p.seed as usize) % top] + r.below(20);
		let kind = r.below(7);
		let (t, ks) = match big_tree::<S>(n, kind, &mut r) {
			Ok(x) => x,
			Err(m) => {
				c.note_panic(Ev::new("build").n("h", 1), m);
				continue;
			}
		};
		c.given(1, t, &ks);
		// the keys, as far as they are known
		let mut ks: std::collections::BTreeSet<i64> = ks.into_iter().collect();
		let heavy = p.obs;
		let mut quiet = heavy & !(CONTENT | DUMP | OTHERS | VALID | STORE);
		if heavy & STORE != 0 {
			quiet |= MOVES
		}
		let mut it = 100;
		let mut kinds: Vec<&str> =
			["runs", "gap", "mixed", "look", "pos", "iter", "mut", "bulk"].into_iter().filter(|k| p.has(k)).collect();
		// a few of the ways, more than once
		while kinds.len() > 5 {
			kinds.remove(r.below(kinds.len()));
		}
		let mut i = 0;
		for round in 0..2 * kinds.len().max(2) {
			if c.dead {
				break;
			}
			c.obs = quiet;
			let all: Vec<i64> = ks.iter().copied().collect();
			let len = 6 + r.below(if n > 800 { 60 } else { 30 });
			macro_rules! tick {
				($end:expr) => {{
					i += 1;
					c.obs = if i % p.every.max(1) == 0 || $end { heavy } else { quiet };
				}};
			}
			match kinds[round % kinds.len()] {
				"runs" if !all.is_empty() => {
					let from = if r.chance(1, 4) { 0 } else { r.below(all.len()) };
					let mut run: Vec<i64> = all[from..(from + len).min(all.len())].to_vec();
					if r.chance(1, 2) {
						run.reverse()
					}
					for (j, k) in run.iter().enumerate() {
						if c.dead {
							break;
						}
						tick!(j + 1 == run.len());
						c.remove(1, *k);
						ks.remove(k);
					}
				}
				"gap" => {
					// between two neighbours, or beyond an end
					let at = match r.below(4) {
						0 => all.first().map_or(0, |k| k - 10 * len as i64),
						1 => all.last().map_or(0, |k| *k),
						_ => all.get(r.below(all.len().max(1))).copied().unwrap_or(0),
					};
					let up = r.chance(1, 2);
					for j in 0..len.min(40) {
						if c.dead {
							break;
						}
						tick!(j + 1 == len.min(40));
						let k = at + if up { j as i64 + 1 } else { 41 - j as i64 };
						c.insert(1, k);
						ks.insert(k);
					}
				}
				"mixed" => {
					let span = all.last().copied().unwrap_or(100).max(0) + 20;
					for j in 0..len {
						if c.dead {
							break;
						}
						tick!(j + 1 == len);
						if r.chance(1, 2) && !all.is_empty() {
							let k = all[r.below(all.len())];
							c.remove(1, k);
							ks.remove(&k);
						} else {
							let k = r.below(span as usize) as i64;
							c.insert(1, k);
							ks.insert(k);
						}
					}
				}
				"look" => {
					let near: Vec<i64> =
						(0..40).map(|_| all.get(r.below(all.len().max(1))).copied().unwrap_or(0) + r.below(3) as i64 - 1).collect();
					c.gets(1, &near);
					for k in near.iter().take(4) {
						if !c.dead {
							c.get_mut(1, *k, i as i64)
						}
					}
					c.obs = heavy;
					for k in near.iter().take(3) {
						if !c.dead && p.obs & DUMP != 0 {
							// the structure must be known
							let d = c.dump(1);
							if !d.bad {
								c.fin(Ev::new("noop").n("h", 1), 1);
								c.address_of(1, *k);
							}
						}
					}
					if !c.dead {
						c.end_mut(1, r.chance(1, 2), i as i64)
					}
				}
				"pos" if p.obs & DUMP != 0 => {
					c.obs = heavy;
					c.fin(Ev::new("noop").n("h", 1), 1);
					for _ in 0..6 {
						let d = c.dump(1);
						if c.dead || d.bad {
							break;
						}
						let addrs = d.addrs();
						if addrs.is_empty() {
							break;
						}
						let a = addrs[r.below(addrs.len())];
						match r.below(3) {
							0 if a[1] >= 0 => {
								c.insert_at(1, Some(a), Tok::new(1), d.leaf(a) && r.chance(1, 2));
							}
							1 if a[1] >= 0 && a[1] < d.count(a) => c.replace_at(1, a, 2),
							_ => {
								c.remove_at(1, a);
							}
						}
					}
					// keys are no longer in order
					break;
				}
				"iter" => {
					it += 10;
					let m = 4 + r.below(40);
					let sc: Vec<(usize, char)> = (0..m).map(|_| (r.below(2), ['f', 'b', 'f', 'b', 'f', 'b', 'c'][r.below(7)])).collect();
					c.iterate(1, it, &sc)
				}
				"mut" => {
					it += 1;
					let sc: String = (0..4 + r.below(30)).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect();
					c.iterate_mut(1, it, &sc, i as i64, true)
				}
				_ => {
					it += 1;
					let how = HOWS[r.below(HOWS.len())];
					let sc = |r: &mut Rng| -> String { (0..r.below(12)).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect() };
					let (before, after) = (sc(&mut r), sc(&mut r));
					let k = if r.chance(1, 3) { all.len().saturating_sub(r.below(20)) } else { r.below(all.len() + 1) }.max((how == "step") as usize);
					let kind = ["iter", "mut"][r.below(2)];
					c.bulk(1, it, kind, &before, how, k, &after, if kind == "mut" { it } else { 0 }, false)
				}
			}
		}
		c.obs = heavy;
		if c.dead {
			continue;
		}
		if p.has("end") {
			match r.below(5) {
				0 => {
					c.clone_tree(1, 2);
					if !c.dead {
						c.clear(1)
					}
					if !c.dead {
						c.insert(1, 5)
					}
					if !c.dead {
						c.drop_tree(2)
					}
				}
				1 => {
					it += 1;
					let how = HOWS[r.below(HOWS.len())];
					let sc: String = (0..r.below(20)).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect();
					let k = r.below(n + 1).max((how == "step") as usize);
					c.bulk(1, it, "into", &sc, how, k, "", 0, false)
				}
				2 => {
					it += 1;
					c.into_iter(1, it);
					for _ in 0..r.below(40) {
						if !c.dead {
							c.into_step(it, r.chance(1, 2))
						}
					}
					if !c.dead {
						c.into_drop(it)
					}
				}
				3 => {
					c.forget(1);
					if !c.dead {
						c.insert(1, 5)
					}
				}
				_ => (),
			}
		}
		if !c.dead && c.trees.contains_key(&1) {
			c.drop_tree(1)
		}
	}
}

// ---- whole trees ----

pub fn wholes<S: St>(p: &P) {
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("wholes", p.obs);
		macro_rules! step {
			($name:expr, |$c:ident| $f:expr) => {
				if p.has($name) && !c.dead && give(&mut c, 1, hist).is_some() {
					let $c = &mut c;
					$f;
				}
			};
		}
		step!("clear", |c| {
			c.clear(1);
			if !c.dead {
				c.clear(1);
			}
			if !c.dead {
				c.insert(1, 50);
			}
			if !c.dead {
				c.clear(1);
			}
			if !c.dead {
				c.drop_tree(1)
			}
		});
		step!("forget", |c| {
			c.forget(1);
			if !c.dead {
				c.forget(1);
			}
			if !c.dead {
				c.insert(1, 50);
			}
			if !c.dead {
				c.insert(1, 40);
			}
			if !c.dead {
				c.drop_tree(1)
			}
		});
		step!("drop", |c| c.drop_tree(1));
		step!("clone", |c| {
			c.clone_tree(1, 2);
			if !c.dead {
				c.drop_tree(1)
			}
			if !c.dead {
				c.clone_tree(2, 1)
			}
			if !c.dead {
				c.clear(2)
			}
			if !c.dead {
				c.drop_tree(2)
			}
			if !c.dead {
				c.drop_tree(1)
			}
		});
		step!("clone", |c| {
			// over a tree that holds something else, and over an empty one
			c.new_tree(3);
			for k in 0..p.n.min(12) {
				if !c.dead {
					c.insert(3, 7 * k as i64)
				}
			}
			if !c.dead {
				c.clone_into(1, 3)
			}
			if !c.dead {
				c.insert(3, 3)
			}
			if !c.dead {
				c.clear(1)
			}
			if !c.dead {
				c.clone_into(3, 1)
			}
			if !c.dead {
				c.clear(3)
			}
			if !c.dead {
				c.clone_into(3, 1)
			}
			if !c.dead {
				c.drop_tree(1)
			}
			if !c.dead {
				c.drop_tree(3)
			}
		});
		step!("into", |c| {
			c.into_iter(1, 77);
			for j in 0..2 {
				if !c.dead {
					c.into_step(77, j == 0)
				}
			}
			if !c.dead {
				c.into_drop(77)
			}
		});
	}
}

/// A clone and its source, changed independently.
pub fn indep<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 7);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("indep", p.obs | DUMP | OTHERS);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let all = all_keys(&d.inorder());
		c.clone_tree(1, 2);
		for i in 0..p.n {
			if c.dead {
				break;
			}
			let h = r.below(2) as i64 + 1;
			if !c.trees.contains_key(&h) {
				continue;
			}
			let k = all[r.below(all.len())];
			match r.below(9) {
				0..=2 => c.insert(h, k),
				3..=5 => c.remove(h, k),
				6 => c.get_mut(h, k, i as i64 + 5),
				7 if i > p.n / 2 && r.chance(1, 6) => {
					if r.chance(1, 2) {
						c.clear(h)
					} else {
						c.drop_tree(h)
					}
				}
				8 if r.chance(1, 3) && c.trees.contains_key(&(3 - h)) => {
					// over again
					c.drop_tree(3 - h);
					if !c.dead {
						c.clone_tree(h, 3 - h)
					}
				}
				_ => {
					let d = c.dump(h);
					let as_ = d.addrs();
					if !as_.is_empty() && !d.bad {
						c.write_at(h, as_[r.below(as_.len())], i as i64)
					}
				}
			}
		}
		for h in 1..=2 {
			if !c.dead && c.trees.contains_key(&h) {
				c.drop_tree(h)
			}
		}
	}
}

/// Clearing and forgetting give a new tree back.
pub fn reset<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 17);
	for (j, hist) in p.corpus.iter().enumerate() {
		let mut c = Ctx::<S>::begin("reset", p.obs | DUMP);
		for kind in ["clear", "forget"] {
			if c.dead || give(&mut c, 1, hist).is_none() {
				break;
			}
			let wipe = |c: &mut Ctx<S>| {
				if !c.dead {
					if kind == "clear" {
						c.clear(1)
					} else {
						c.forget(1)
					}
				}
			};
			wipe(&mut c);
			if c.dead {
				break;
			}
			c.fresh(1);
			c.ends(1);
			c.gets(1, &[5, 10, 15]);
			c.iterate(1, 30, &[(0, 'f'), (0, 'b'), (0, 'c'), (1, 'b'), (1, 'f')]);
			c.iterate_mut(1, 31, "fb", 0, false);
			c.end_mut(1, false, 3);
			c.end_mut(1, true, 3);
			c.remove(1, 10);
			if c.dead {
				break;
			}
			c.address_of(1, 10);
			c.visit(1);
			c.nav(1);
			c.dot(1);
			c.validate(1);
			wipe(&mut c);
			if c.dead {
				break;
			}
			c.clone_tree(1, 2);
			if c.dead {
				break;
			}
			c.drop_tree(2);
			// a history on it, again as on a new tree
			let again = &p.corpus[(j + 1) % p.corpus.len()];
			replay(&mut c, 1, again);
			for _ in 0..p.n {
				if c.dead {
					break;
				}
				let k = 5 * r.below(30) as i64;
				if r.chance(1, 2) {
					c.insert(1, k)
				} else {
					c.remove(1, k)
				}
			}
			wipe(&mut c);
			if !c.dead {
				c.fresh(1);
				c.into_iter(1, 33);
			}
			if !c.dead {
				c.into_step(33, true);
			}
			if !c.dead {
				c.into_step(33, false);
			}
			if !c.dead {
				c.into_drop(33)
			}
		}
	}
}

/// A recorded history.
pub fn replay<S: St>(c: &mut Ctx<S>, h: i64, hist: &Hist) {
	let keys = keys_of(hist);
	for (i, (ins, _)) in hist.iter().enumerate() {
		if c.dead {
			return;
		}
		if *ins {
			c.insert(h, keys[i])
		} else {
			c.remove(h, keys[i])
		}
	}
}

// ---- views ----

pub fn views<S: St>(p: &P) {
	let mut r = Rng::new(p.seed * 1000 + 900);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("views", p.obs);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let keys = all_keys(&d.inorder());
		if p.has("visit") && !c.dead {
			c.visit(1);
			if !c.dead {
				c.visit_all_below(1)
			}
			if !c.dead {
				c.visit_cut(1, &mut r)
			}
		}
		if p.has("views") && !c.dead {
			c.views(1, &keys)
		}
		if p.has("dot") && !c.dead {
			c.dot(1);
			if !c.dead && r.chance(1, 4) {
				c.dot_cut(1, &mut r)
			}
		}
		if p.has("validate") && !c.dead {
			c.validate(1);
			c.validate_below(1, &mut r)
		}
	}
}

/// The views along long random histories.
pub fn vrand<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 300 + s as u64);
		let mut c = Ctx::<S>::begin("vrand", p.obs | DUMP);
		c.new_tree(1);
		let span = 60 + 40 * s;
		for i in 0..p.n {
			if c.dead {
				break;
			}
			let k = r.below(span) as i64 * 10;
			let grow = if (i / span) % 2 == 0 { 7 } else { 3 };
			if r.below(10) < grow {
				c.insert(1, k)
			} else {
				c.remove(1, k)
			}
			if c.dead {
				break;
			}
			if i % p.every.max(1) == 0 {
				let ks: Vec<i64> = (0..6).map(|_| 5 * r.below(2 * span) as i64).collect();
				if p.has("visit") {
					c.visit(1);
					if !c.dead {
						c.visit_all_below(1)
					}
					if !c.dead && r.chance(1, 3) {
						c.visit_cut(1, &mut r)
					}
				}
				if p.has("views") && !c.dead {
					c.views(1, &ks)
				}
				if p.has("dot") && !c.dead {
					c.dot(1)
				}
				if p.has("validate") && !c.dead {
					c.validate(1);
					if r.chance(1, 6) {
						c.validate_below(1, &mut r)
					}
				}
			}
		}
	}
}

/// Structures that lawful use never produces, for the validator.
pub fn tamper<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 71);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("tamper", 0);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		c.validate(1);
		let nodes = d.ids.len();
		if nodes == 0 || d.bad {
			continue;
		}
		macro_rules! step {
			(|$t:ident, $e:ident| $f:expr) => {
				if !c.dead && give(&mut c, 1, hist).is_some() {
					let $e = c.dump(1);
					let res = catch(|| {
						let $t = c.tree(1);
						$f;
					});
					if let Err(m) = res {
						c.note_panic(Ev::new("tamper"), m)
					} else {
						c.validate(1);
						if r.chance(1, 6) {
							c.validate_below(1, &mut r)
						}
					}
				}
			};
		}
		let addrs = d.addrs();
		let items: Vec<[i64; 2]> = addrs.iter().copied().filter(|a| a[1] >= 0 && a[1] < d.count(*a)).collect();
		let keys: Vec<i64> = d.inorder().iter().map(|x| x[0]).collect();
		for a in &items {
			// equal to, or beyond, the neighbours; or still in order
			for delta in [-10i64, -11, -5, 5, 10, 11, 1000, -1000] {
				if items.len() > 12 && r.chance(1, 2) {
					continue;
				}
				step!(|t, e| unsafe {
					if let Some(x) = t.get_mut_at(e.dec(*a)) {
						x.k += delta
					}
				});
			}
		}
		for _ in 0..3.min(keys.len()) {
			// two items swapped
			let (a, b) = (items[r.below(items.len())], items[r.below(items.len())]);
			step!(|t, e| unsafe {
				let ka = t.get_at(e.dec(a)).unwrap().k;
				let kb = t.get_at(e.dec(b)).unwrap().k;
				t.get_mut_at(e.dec(a)).unwrap().k = kb;
				t.get_mut_at(e.dec(b)).unwrap().k = ka;
			});
		}
		for n in 0..nodes {
			// wrong parents
			for m in 0..=nodes.min(4) {
				let q = if m == 0 { None } else { Some(d.ids[(n + m) % nodes]) };
				let _ = q;
				step!(|t, e| unsafe {
					let q = if m == 0 { None } else { Some(e.ids[(n + m) % nodes]) };
					t.node_mut(e.ids[n]).set_parent(q)
				});
			}
			let leaf = d.nodes[n].c.is_empty();
			if leaf {
				// fewer, and more, items
				let cnt = d.nodes[n].i.len();
				for less in 1..=cnt {
					step!(|t, e| unsafe {
						for _ in 0..less {
							let _ = t.node_mut(e.ids[n]).leaf_remove(0.into());
						}
					});
					step!(|t, e| unsafe {
						for x in 0..less {
							let _ = t.node_mut(e.ids[n]).leaf_remove((cnt - 1 - x).into());
						}
					});
				}
				let last = d.nodes[n].i[cnt - 1][0];
				let first = d.nodes[n].i[0][0];
				for more in 1..=(raw_btree::M + 1 - cnt) {
					// in order, while there is room between the keys
					step!(|t, e| unsafe {
						for x in 0..more {
							t.node_mut(e.ids[n]).push_right(Tok::new(last + 1 + x as i64), None);
						}
					});
					step!(|t, e| unsafe {
						for x in 0..more {
							t.node_mut(e.ids[n]).push_left(Tok::new(first - 1 - x as i64), None);
						}
					});
				}
			}
		}
		// leaves hung one level too low, or too high: an internal node whose child is wrapped in a new root cannot
		// be made through the public API of a tree alone, so a whole small tree is assembled by hand
		crooked::<S>(&mut c);
	}
}

/// Trees assembled by hand, with leaves at different depths or an empty root.
fn crooked<S: St>(c: &mut Ctx<S>) {
	use raw_btree::Node;
	let m = raw_btree::M as i64;
	let min = (m / 2 - 1).max(1) as usize;
	// grow a tree of three levels, then replace a child by another one
	let mut hist: Hist = Vec::new();
	let mut n = 0;
	loop {
		hist.push((true, n));
		n += 1;
		let Ok(t) = build::<S>(&hist) else { return };
		let d = Dump::of(&t);
		let done = d.height() == 3;
		if catch(|| drop(t)).is_err() {
			return;
		}
		if done {
			break;
		}
		if n > 200 {
			return;
		}
	}
	for which in 0..4 {
		if c.dead || give(c, 1, &hist).is_none() {
			return;
		}
		let d = c.dump(1);
		let r = catch(|| unsafe {
			let t = c.tree(1);
			let root = d.ids[0];
			let kids = &d.nodes[0].c;
			match which {
				0 | 1 => {
					// a leaf in the place of an internal child: emptied of its own children
					let at = if which == 0 { kids[0] } else { kids[kids.len() - 1] } - 1;
					let lo = d.nodes[at].i[0][0];
					let items = (0..min.max(d.nodes[at].i.len())).map(|x| Tok::new(lo + x as i64));
					let mut it = items;
					let mut leaf = Node::leaf(Some(root), it.next().unwrap());
					for x in it {
						leaf.push_right(x, None);
					}
					std::mem::forget(std::mem::replace(t.node_mut(d.ids[at]), leaf));
				}
				2 => {
					// an internal root without items
					if let Node::Internal(i) = t.node_mut(root) {
						while i.item_count() > 0 {
							let (_, _, _, item, _) = i.merge(0);
							drop(item)
						}
					}
				}
				_ => {
					// a child under- or overfull
					let at = kids[0] - 1;
					if let Node::Internal(i) = t.node_mut(d.ids[at]) {
						while i.item_count() > min - 1 {
							let (_, _, _, item, _) = i.merge(0);
							drop(item)
						}
					}
				}
			}
		});
		if let Err(m) = r {
			return c.note_panic(Ev::new("crooked"), m);
		}
		c.validate(1);
		// not a tree that may be dropped safely
		std::mem::forget(c.trees.remove(&1));
	}
}

// ---- misbehaving user code ----

pub fn lax<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 23);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("lax", p.obs | DUMP);
		if p.has("lax") {
			for _ in 0..p.count {
				if c.dead || give(&mut c, 1, hist).is_none() {
					break;
				}
				for _ in 0..4 {
					if c.dead {
						break;
					}
					match r.below(5) {
						0 | 1 => c.insert_lax(1, r.below(200) as i64, r.next() >> 8),
						2 | 3 => c.remove_lax(1, r.next() >> 8),
						_ => c.get_lax(1, r.next() >> 8, r.chance(1, 2)),
					}
				}
				if !c.dead {
					c.drop_tree(1)
				}
			}
		}
		if p.has("panic") && !c.dead {
			let Some(d) = give(&mut c, 1, hist) else { continue };
			let (present, absent) = probes(&d.inorder());
			let keys = [
				present.first().copied(),
				present.last().copied(),
				Some(present.get(present.len() / 2).copied().unwrap_or(3)),
				absent.first().copied(),
				absent.last().copied(),
				Some(absent[r.below(absent.len())]),
			];
			for k in keys.iter().flatten() {
				for kind in ["insert", "remove", "get", "getm"] {
					for at in 0..60 {
						if c.dead || give(&mut c, 1, hist).is_none() {
							break;
						}
						if !c.cmp_panic(1, kind, *k, at, false) {
							break;
						}
					}
				}
			}
		}
	}
}

/// Long histories of arbitrary answers.
pub fn laxrand<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 700 + s as u64);
		let mut c = Ctx::<S>::begin("laxrand", p.obs | DUMP);
		c.new_tree(1);
		for i in 0..p.n {
			if c.dead {
				break;
			}
			let grow = if (i / 60) % 2 == 0 { 7 } else { 3 };
			match r.below(12) {
				x if x < grow => c.insert_lax(1, r.below(100) as i64, r.next() >> 8),
				x if x < 10 => c.remove_lax(1, r.next() >> 8),
				10 => c.get_lax(1, r.next() >> 8, true),
				_ => {
					c.cmp_panic(1, ["insert", "remove", "get", "getm"][r.below(4)], r.below(100) as i64, r.below(3), true);
				}
			}
		}
		if !c.dead {
			c.drop_tree(1)
		}
	}
}

pub fn faults<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 31);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("faults", (p.obs | DUMP | DROPS) & !STORE);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let n = d.inorder().len();
		// destructors: each one, some pairs, all
		let mut sets: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
		for _ in 0..3 {
			if n > 1 {
				sets.push(vec![r.below(n), r.below(n)])
			}
		}
		sets.push((0..n).collect());
		for (j, set) in sets.iter().enumerate() {
			for kind in ["clear", "drop"] {
				if p.has(kind) && !c.dead && give(&mut c, 1, hist).is_some() {
					let ids: Vec<i64> = c.dump(1).inorder().iter().enumerate().filter(|(x, _)| set.contains(x)).map(|(_, x)| x[1]).collect();
					c.end_panic(1, kind, &ids);
					if kind == "clear" && !c.dead {
						// what exists still works
						c.insert(1, 5);
						if !c.dead {
							c.insert(1, 6);
						}
						if !c.dead {
							c.remove(1, 5);
						}
						if !c.dead {
							c.drop_tree(1)
						}
					}
				}
			}
			if p.has("into") && !c.dead {
				let Some(d) = give(&mut c, 1, hist) else { break };
				let ids: Vec<i64> = d.inorder().iter().enumerate().filter(|(x, _)| set.contains(x)).map(|(_, x)| x[1]).collect();
				let it = 100 + j as i64;
				c.into_iter(1, it);
				let lead = if j % 3 == 0 { 0 } else { r.below(n) };
				for _ in 0..lead {
					if !c.dead {
						c.into_step(it, r.chance(1, 2))
					}
				}
				if !c.dead {
					c.into_drop_panic(it, &ids);
				}
			}
		}
		if p.has("clone") {
			for fuse in 0..n {
				if c.dead || give(&mut c, 1, hist).is_none() {
					break;
				}
				c.clone_panic(1, fuse);
				if c.dead {
					break;
				}
				c.clone_tree(1, 2);
				if !c.dead {
					c.remove(2, 10 * r.below(n) as i64)
				}
				// again, into the tree that there is
				if !c.dead && r.chance(1, 2) {
					c.clone_into_panic(1, 2, fuse);
					if !c.dead {
						c.insert(2, 5)
					}
				}
				if !c.dead {
					c.drop_tree(2)
				}
				if !c.dead {
					c.drop_tree(1)
				}
			}
		}
	}
}

// ---- storages without room ----

/// What remains after a refusal is used further, and ended in some way.
fn after_cut<S: St>(c: &mut Ctx<S>, r: &mut Rng, it: i64, again: bool) {
	for _ in 0..r.below(4) {
		if c.dead {
			return;
		}
		let d = c.dump(1);
		if d.bad {
			return;
		}
		let keys: Vec<i64> = d.inorder().iter().map(|x| x[0]).collect();
		match r.below(4) {
			0 | 1 if !keys.is_empty() => c.remove(1, keys[r.below(keys.len())]),
			2 if !keys.is_empty() => c.insert(1, keys[r.below(keys.len())] + 1 + r.below(4) as i64),
			_ => {
				let k = r.below(60) as i64;
				c.insert_full(1, None, Tok::new(k), if again { r.below(3) } else { 1000 });
			}
		}
	}
	if c.dead {
		return;
	}
	match r.below(4) {
		0 => c.drop_tree(1),
		1 => {
			c.clear(1);
			if !c.dead {
				c.insert(1, 3)
			}
			if !c.dead {
				c.drop_tree(1)
			}
		}
		_ => {
			let n = c.trees[&1].len().min(300);
			c.into_iter(1, it);
			let n = if r.chance(1, 2) { n + 1 } else { r.below(n + 1) };
			for _ in 0..n {
				if !c.dead {
					c.into_step(it, r.chance(1, 2))
				}
			}
			if !c.dead {
				c.into_drop(it)
			}
		}
	}
}

/// Insertions into a storage that runs out of room, at every step where it can: by key and by address, at each place of
/// the leaves that must be split, and elsewhere sometimes; and clones.
pub fn full<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 47);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("full", (p.obs | DUMP | DROPS) & !STORE);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		if d.bad {
			continue;
		}
		let mut it = 100;
		if p.has("insert") {
			// leaf addresses, with the key that belongs there
			let all = d.inorder();
			let mut at: Vec<(Option<[i64; 2]>, i64)> = Vec::new();
			let mut g = 0;
			for a in d.addrs_in_order() {
				at.push((Some(a), if g == 0 { all[0][0] - 5 } else { all[g - 1][0] + 5 }));
				g += 1;
			}
			if all.is_empty() {
				at.push((None, 7))
			}
			for (a, k) in at {
				if a.is_some_and(|a| d.count(a) < raw_btree::M as i64) && r.chance(7, 8) {
					continue;
				}
				for how in 0..3 {
					if how == 2 && r.chance(1, 2) {
						continue;
					}
					for room in 0..40 {
						if c.dead || give(&mut c, 1, hist).is_none() {
							return;
						}
						it += 1;
						let how = match how {
							0 => None,
							n => Some((a, n == 2)),
						};
						if c.insert_full(1, how, Tok::new(k), room) || c.dead {
							break;
						}
						after_cut(&mut c, &mut r, it, true)
					}
				}
			}
		}
		if p.has("clone") {
			for room in 0..d.ids.len() {
				if c.dead || give(&mut c, 1, hist).is_none() {
					break;
				}
				c.clone_full(1, None, room);
				if !c.dead {
					// into a tree that there is
					c.clone_tree(1, 2)
				}
				if !c.dead {
					c.insert(2, 5)
				}
				if !c.dead {
					c.clone_full(1, Some(2), room);
				}
				if !c.dead {
					c.insert(2, 5)
				}
				if !c.dead {
					c.drop_tree(2)
				}
				if !c.dead {
					after_cut(&mut c, &mut r, 5000 + room as i64, false)
				}
			}
		}
	}
}

/// Random histories over a storage that runs out of room now and then.
pub fn fullrand<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 470 + s as u64);
		let mut c = Ctx::<S>::begin("fullrand", (p.obs | DUMP | DROPS) & !STORE);
		let span = [30, 120, 400][s % 3];
		c.new_tree(1);
		let mut it = 100;
		let often = [2, 6, 20][(s / 3) % 3];
		for i in 0..p.n {
			if c.dead {
				break;
			}
			let k = r.below(span) as i64;
			match r.below(16) {
				0..=8 => {
					let d = c.dump(1);
					if d.inorder().iter().any(|x| x[0] == k) {
						c.insert(1, k)
					} else {
						let room = if r.chance(1, often) { r.below(3) } else { 1000 };
						c.insert_full(1, None, Tok::new(k), room);
					}
				}
				9..=12 => c.remove(1, k),
				13 => {
					c.clone_full(1, None, r.below(6));
				}
				_ if i % 7 == 0 => {
					it += 1;
					after_cut(&mut c, &mut r, it, true);
					if !c.dead && !c.trees.contains_key(&1) {
						c.new_tree(1)
					}
				}
				_ => {
					let x = c.trees[&1].len();
					c.remove(1, x as i64)
				}
			}
		}
		if !c.dead {
			c.drop_tree(1)
		}
	}
}

// ---- ownership ----

/// Items wandering between several trees, iterators and the caller.
pub fn own<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 900 + s as u64);
		let mut c = Ctx::<S>::begin("own", p.obs);
		let mut it = 100;
		let span = [12, 40, 120][s % 3];
		let mut held: Vec<Tok> = Vec::new();
		// a handle is not used again: an iterator may still hold the nodes of its tree
		let mut slots = [1i64, 2, 3];
		let mut next = 4;
		for i in 0..p.n {
			if c.dead {
				break;
			}
			let slot = r.below(3);
			if !c.trees.contains_key(&slots[slot]) {
				slots[slot] = next;
				next += 1;
				c.new_tree(slots[slot]);
				continue;
			}
			let h = slots[slot];
			let k = r.below(span) as i64;
			match r.below(40) {
				0..=14 => match held.pop() {
					Some(x) if r.chance(1, 2) => c.insert_tok(h, x),
					x => {
						held.extend(x);
						c.insert(h, k)
					}
				},
				15..=25 => {
					// the item may be given back to a tree later
					if let Some(x) = c.remove_keep(h, k) {
						if held.len() < 6 {
							held.push(x)
						}
					}
				}
				26 => c.get_mut(h, k, i as i64),
				27 if r.chance(1, 3) => c.clear(h),
				28 if r.chance(1, 3) => c.forget(h),
				29 if r.chance(1, 3) => c.drop_tree(h),
				30 | 31 => {
					let other = (slot + 1) % 3;
					if c.trees.contains_key(&slots[other]) {
						c.drop_tree(slots[other])
					}
					if !c.dead {
						slots[other] = next;
						next += 1;
						c.clone_tree(h, slots[other])
					}
				}
				32 if r.chance(1, 2) => {
					it += 1;
					c.into_iter(h, it)
				}
				33..=36 => {
					let live: Vec<i64> = c.intos.keys().copied().collect();
					if let Some(i) = live.get(r.below(live.len())) {
						for _ in 0..r.below(4) {
							if !c.dead {
								c.into_step(*i, r.chance(1, 2))
							}
						}
					}
				}
				37 => {
					let live: Vec<i64> = c.intos.keys().copied().collect();
					if let Some(i) = live.get(r.below(live.len())) {
						c.into_drop(*i)
					}
				}
				38 => {
					it += 10;
					let sc: Vec<(usize, char)> = (0..6).map(|_| (r.below(2), ['f', 'b', 'c'][r.below(3)])).collect();
					c.iterate(h, it, &sc)
				}
				_ => {
					it += 1;
					c.iterate_mut(h, it, "fbf", i as i64, true)
				}
			}
		}
		let live: Vec<i64> = c.intos.keys().copied().collect();
		for i in live {
			if !c.dead {
				c.into_drop(i)
			}
		}
		for h in slots {
			if !c.dead && c.trees.contains_key(&h) {
				c.drop_tree(h)
			}
		}
		for x in held {
			std::mem::forget(x)
		}
	}
}

/// Values written through every mutable access, in any order.
pub fn writes<S: St>(p: &P) {
	let mut r = Rng::new(p.seed + 41);
	for hist in &p.corpus {
		let mut c = Ctx::<S>::begin("writes", p.obs | DUMP | CONTENT);
		let Some(d) = give(&mut c, 1, hist) else { continue };
		let all = all_keys(&d.inorder());
		let mut w = 100;
		let mut it = 50;
		for _ in 0..p.n {
			if c.dead {
				break;
			}
			w += 10;
			let d = c.dump(1);
			if d.bad {
				break;
			}
			let addrs = d.addrs();
			match r.below(8) {
				0 => c.get_mut(1, all[r.below(all.len())], w),
				1 => c.end_mut(1, false, w),
				2 => c.end_mut(1, true, w),
				3 if !addrs.is_empty() => c.write_at(1, addrs[r.below(addrs.len())], w),
				4 if !addrs.is_empty() => {
					let a = addrs[r.below(addrs.len())];
					if a[1] >= 0 && a[1] < d.count(a) {
						let k = d.nodes[a[0] as usize - 1].i[a[1] as usize][0];
						c.replace_at(1, a, k)
					}
				}
				5 => {
					it += 1;
					let n = r.below(d.inorder().len() + 2);
					let sc: String = (0..n).map(|_| if r.chance(1, 2) { 'f' } else { 'b' }).collect();
					c.iterate_mut(1, it, &sc, w, r.chance(1, 2))
				}
				6 => {
					let sorted = d.inorder().windows(2).all(|x| x[0][0] < x[1][0]);
					if sorted {
						let k = all[r.below(all.len())];
						if r.chance(1, 2) {
							c.insert(1, k)
						} else {
							c.remove(1, k)
						}
					}
				}
				_ => {
					let k = all[r.below(all.len())];
					c.get(1, k)
				}
			}
		}
	}
}

// ---- costs ----

pub fn cost<S: St>(p: &P) {
	for (j, mode) in ["asc", "desc", "rand", "churn"].iter().enumerate() {
		let mut r = Rng::new(p.seed * 10 + j as u64);
		let mut c = Ctx::<S>::begin("cost", 0);
		let mut t = std::mem::ManuallyDrop::new(RawBTree::<Tok, S>::new());
		let mut size = 0usize;
		let mut ok = Ok(());
		let mut marks: Vec<usize> = vec![0, 1, 2, 5, 9, 20, 50, 120, 300, 700, 1500, 3000, 6000];
		marks.retain(|m| *m <= p.n);
		marks.push(p.n);
		let mut i = 0i64;
		for m in marks {
			let res = catch(|| {
				while size < m {
					i += 1;
					let k = match *mode {
						"asc" => 2 * i,
						"desc" => -2 * i,
						_ => 2 * (r.next() % 1_000_000) as i64,
					};
					if t.insert(cmp, Tok::new(k)).is_none() {
						size += 1
					}
					if *mode == "churn" && r.chance(1, 3) {
						let f = t.iter().nth(0).map(|x| x.k);
						if let Some(f) = f {
							if t.remove(kcmp, &f).is_some() {
								size -= 1
							}
						}
					}
				}
			});
			if let Err(e) = res {
				ok = Err(e);
				break;
			}
			c.trees.insert(1, std::mem::ManuallyDrop::into_inner(t));
			let d = c.dump(1);
			let s = d.inorder();
			let mut ks: Vec<i64> = vec![s.first().map_or(0, |x| x[0]), s.last().map_or(0, |x| x[0])];
			for _ in 0..6 {
				if !s.is_empty() {
					ks.push(s[r.below(s.len())][0])
				}
			}
			let odd: Vec<i64> = ks.iter().map(|k| k + 1).collect();
			ks.extend(odd);
			for k in &ks {
				for kind in ["get", "getm", "addr"] {
					if !c.dead {
						c.cost(1, kind, *k, &d)
					}
				}
			}
			for k in &ks {
				for kind in ["insert", "remove", "insert"] {
					if !c.dead {
						let d = c.dump(1);
						c.cost(1, kind, *k, &d);
					}
				}
			}
			if c.dead {
				return;
			}
			t = std::mem::ManuallyDrop::new(c.trees.remove(&1).unwrap());
			size = catch(|| t.iter().count()).unwrap_or(size);
		}
		if let Err(e) = ok {
			c.note_panic(Ev::new("build"), e);
		}
		if catch(|| drop(std::mem::ManuallyDrop::into_inner(t))).is_err() {}
	}
}

// ---- very large trees ----

/// A walk: the number of items met, the first and the last, the distinct differences between neighbours.
#[derive(Default)]
struct Walk {
	n: i64,
	first: Option<i64>,
	last: Option<i64>,
	gaps: std::collections::BTreeSet<i64>,
}

fn opt1(k: Option<i64>) -> String {
	list(k, |k| small(k).to_string())
}

impl Walk {
	fn see(&mut self, k: i64) {
		self.n += 1;
		self.first.get_or_insert(k);
		if let Some(l) = self.last.replace(k) {
			if self.gaps.len() < 10 {
				self.gaps.insert(k - l);
			}
		}
	}
	fn of(i: impl Iterator<Item = i64>) -> Walk {
		let mut w = Walk::default();
		// no more steps than make sense
		for k in i.take(1 << 22) {
			w.see(k)
		}
		w
	}
	fn json(&self) -> String {
		let gaps: Vec<i64> = self.gaps.iter().copied().collect();
		format!("[{},{},{},{}]", self.n, opt1(self.first), opt1(self.last), jints(&gaps))
	}
}

/// Everything the accessors say of a very large tree whose content is known.
fn mass_look<S: St>(p: &P, t: &mut RawBTree<Tok, S>, mut ev: Ev, (n, a, b): (i64, i64, i64), r: &mut Rng) -> Ev {
	let size = (n - a - b).max(1) as usize;
	if p.has("len") {
		ev = ev.n("len", t.len().min(1 << 30) as i64).b("e", t.is_empty());
	}
	if p.has("ends") {
		ev = ev
			.raw("f", opt1(t.first().map(|x| x.k)))
			.raw("l", opt1(t.last().map(|x| x.k)))
			.raw("fm", opt1(t.first_mut().map(|x| x.k)))
			.raw("lm", opt1(t.last_mut().map(|x| x.k)))
	}
	if p.has("iter") {
		ev = ev.raw("up", Walk::of(t.iter().map(|x| x.k)).json()).raw("down", Walk::of(t.iter_mut().rev().map(|x| x.k)).json());
		let mut hs = Vec::new();
		for j in 0..4 {
			let x = if j == 0 { 0 } else { r.below(size) };
			let y = if j == 1 { 0 } else { r.below(size - x) };
			let mut i = t.iter();
			let mut i = i.by_ref();
			for _ in 0..x {
				i.next();
			}
			for _ in 0..y {
				i.next_back();
			}
			let left = i.len().min(1 << 30);
			let hint = i.size_hint().1.filter(|h| *h == i.size_hint().0).map_or(-1, |h| h.min(1 << 30) as i64);
			hs.push(format!("[{x},{y},{left},{hint},{}]", opt1((&mut i).next().map(|x| x.k))));
		}
		ev = ev.raw("hints", list(hs, |x| x));
		let ns: Vec<usize> = vec![0, r.below(size), size - 1, size, 65535, 65536];
		ev = ev.raw(
			"nth",
			list(ns, |j| format!("[{j},{},{}]", opt1(t.iter().nth(j).map(|x| x.k)), opt1(t.iter_mut().nth_back(j).map(|x| x.k)))),
		)
	}
	if p.has("map") {
		let mut ks: Vec<i64> = vec![0, 10 * a, 10 * a + 10, 10 * (n - b), 10 * (n - b) + 10, 655360, 655350];
		for _ in 0..30 {
			ks.push(10 * (a + 1 + r.below(size) as i64) + [0, 0, 1, -1][r.below(4)])
		}
		ev = ev.raw(
			"gets",
			list(ks, |k| {
				let g = t.get(kcmp, &k).map(|x| x.k);
				let m = t.get_mut(kcmp, &k).map(|x| x.k);
				let x = match t.address_of(kcmp, &k) {
					Ok(a) => unsafe { t.get_at(a) }.map(|x| x.k),
					Err(_) => None,
				};
				format!("[{k},{},{},{}]", opt1(g), opt1(m), opt1(x))
			}),
		)
	}
	#[cfg(debug_assertions)]
	if p.has("valid") {
		let ok = catch(|| t.validate(cmp)).is_ok();
		ev = ev.b("valid", ok)
	}
	ev
}

fn balance<S: St>() -> (i64, i64) {
	let mut left = 0;
	let mut bad = 0;
	for (c, _) in S::events() {
		match c {
			ALLOC => left += 1,
			RELEASE | DROPNODE | SELFDROP => left -= 1,
			_ => bad += 1,
		}
	}
	(left, bad)
}

pub fn mass<S: St>(p: &P) {
	for s in 0..p.count {
		let mut r = Rng::new(p.seed * 1000 + 1700 + s as u64);
		let mut c = Ctx::<S>::begin("mass", p.obs);
		let n = p.n as i64 + r.below(4000) as i64;
		let mut ks: Vec<i64> = (1..=n).collect();
		match s % 3 {
			0 => {
				for i in (1..ks.len()).rev() {
					ks.swap(i, r.below(i + 1))
				}
			}
			1 => (),
			_ => ks.reverse(),
		}
		c.reset_logs();
		let base = |op: &str, a: i64, b: i64| Ev::new(op).n("n", n).n("a", a).n("b", b);
		let mut t = std::mem::ManuallyDrop::new(RawBTree::<Tok, S>::new());
		if let Err(m) = catch(|| {
			for k in &ks {
				t.insert(cmp, Tok::new(10 * k));
			}
		}) {
			c.note_panic(Ev::new("mass"), m);
			continue;
		}
		let (mut a, mut b) = (0, 0);
		for stage in 0..3 {
			let ev = match stage {
				0 => Ok(base("mass", a, b)),
				1 => {
					let m = [r.below(2000) as i64 + 1, n - p.n as i64 + r.below(60) as i64][s % 2];
					catch(|| {
						let w = Walk::of((1..=m).filter_map(|i| t.remove(kcmp, &(10 * i)).map(|x| x.k)));
						let ev = base("mass", m, b).n("a0", a);
						a = m;
						if p.has("map") {
							ev.raw("took", w.json())
						} else {
							ev
						}
					})
				}
				_ => {
					let m = 1 + r.below(6000) as i64;
					catch(|| {
						let w = Walk::of((0..m).filter_map(|i| t.remove(kcmp, &(10 * (n - i))).map(|x| x.k)));
						let ev = base("mass", a, m).n("b0", b);
						b = m;
						if p.has("map") {
							ev.raw("tookb", w.json())
						} else {
							ev
						}
					})
				}
			};
			match ev.and_then(|ev| catch(|| mass_look(p, &mut t, ev, (n, a, b), &mut r))) {
				Ok(ev) => ev.emit(),
				Err(m) => {
					c.note_panic(Ev::new("mass"), m);
					break;
				}
			}
		}
		if c.dead {
			continue;
		}
		let t = std::mem::ManuallyDrop::into_inner(t);
		let ev = base("mass", a, b);
		ledger(|l| {
			l.drops.clear();
			l.clones.clear()
		});
		let drops = |ev: Ev, x: i64| {
			let d = ledger(|l| std::mem::take(&mut l.drops));
			let n = d.len();
			let d: HashSet<i64> = d.into_iter().collect();
			if p.has("drops") {
				ev.n("x", x).ints("d", &[n as i64, d.len() as i64])
			} else {
				ev
			}
		};
		let end = catch(|| match s % 4 {
			0 if p.has("clone") => {
				let t2 = t.clone();
				drop(t);
				let mut ev = drops(ev, 0);
				let cl: HashSet<i64> = ledger(|l| l.clones.iter().map(|x| x.0).collect());
				let made = [ledger(|l| l.clones.len() as i64), cl.len() as i64];
				ev = ev.raw("cl", Walk::of(t2.iter().map(|x| x.k)).json()).n("cllen", t2.len().min(1 << 30) as i64).ints("clmade", &made);
				drop(t2);
				ev
			}
			1 | 0 => {
				let mut t = t;
				t.clear();
				let ev = drops(ev, 0);
				if p.has("clear") {
					let ev = ev.raw("after", format!("[{},{},{},{}]", t.len(), t.is_empty(), opt1(t.first().map(|x| x.k)), t.iter().take(9).count()));
					drop(t);
					ev
				} else {
					drop(t);
					ev
				}
			}
			2 => {
				let size = (n - a - b) as usize;
				let mut i = t.into_iter();
				let x = r.below(size / 2);
				let y = r.below(size / 2);
				let mut got = Vec::with_capacity(x + y + 1);
				for _ in 0..x {
					got.extend(i.next())
				}
				for _ in 0..y {
					got.extend(i.next_back())
				}
				drop(i);
				let ev = drops(ev, got.len() as i64);
				drop(got);
				ev
			}
			_ => {
				drop(t);
				drops(ev, 0)
			}
		});
		match end {
			Ok(ev) => {
				let (left, bad) = balance::<S>();
				if p.has("nodes") {
					ev.n("nodes", left).n("nbad", bad).emit()
				} else {
					ev.emit()
				}
			}
			Err(m) => c.note_panic(Ev::new("mass"), m),
		}
	}
}

// ---- several storages ----

fn capture<S: St>(p: &P, f: fn(&P, &mut Ctx<S>, u64), seed: u64) -> Vec<String> {
	let old = set_sink(Sink::Mem(Vec::new()));
	let mut c = Ctx::<S>::begin("par", p.obs & !STORE);
	f(p, &mut c, seed);
	drop(c);
	match set_sink(old) {
		Sink::Mem(v) => v.into_iter().skip(1).collect(),
		_ => Vec::new(),
	}
}

fn history<S: St>(p: &P, c: &mut Ctx<S>, seed: u64) {
	let mut r = Rng::new(seed);
	let span = [15, 40, 100][seed as usize % 3];
	c.new_tree(1);
	let mut it = 100;
	for i in 0..p.n {
		if c.dead {
			return;
		}
		if !c.trees.contains_key(&1) {
			c.new_tree(1);
			continue;
		}
		let k = 10 * r.below(span) as i64;
		let grow = if (i / 80) % 2 == 0 { 12 } else { 6 };
		match r.below(30) {
			x if x < grow => c.insert(1, k),
			x if x < 18 => c.remove(1, k),
			18 => c.get(1, k),
			19 => {
				c.address_of(1, k);
			}
			20 => c.ends(1),
			21 | 22 => {
				let d = c.dump(1);
				let a = d.addrs();
				if !a.is_empty() && !d.bad {
					let a = a[r.below(a.len())];
					if let Some((t, ra)) = c.remove_at(1, a) {
						reinsert(c, 1, t, ra)
					}
				}
			}
			23 if i % 7 == 0 => {
				if !c.dump(1).bad {
					c.nav(1)
				}
			}
			24 => {
				it += 1;
				c.iterate(1, it, &[(0, 'f'), (0, 'b'), (0, 'b')])
			}
			25 => {
				it += 1;
				c.iterate_mut(1, it, "fbb", 5, true)
			}
			26 if r.chance(1, 4) => c.clear(1),
			27 if r.chance(1, 4) => c.forget(1),
			28 if r.chance(1, 2) => {
				c.clone_tree(1, 2);
				if !c.dead {
					c.drop_tree(2)
				}
			}
			29 if r.chance(1, 4) => {
				it += 1;
				c.into_iter(1, it);
				for j in 0..4 {
					if !c.dead {
						c.into_step(it, j % 2 == 0)
					}
				}
				if !c.dead {
					c.into_drop(it)
				}
			}
			_ => {
				if !c.dead {
					c.visit(1)
				}
			}
		}
	}
}

/// The same histories over every storage.
pub fn par(p: &P) {
	for s in 0..p.count {
		let seed = p.seed * 100 + s as u64;
		let runs = [
			capture::<raw_btree::storage::BoxStorage>(p, history, seed),
			capture::<Arena<0>>(p, history, seed),
			capture::<Arena<1>>(p, history, seed),
			capture::<Arena<2>>(p, history, seed),
			capture::<Arena<3>>(p, history, seed),
			capture::<Arena<5>>(p, history, seed),
			capture::<Arena<6>>(p, history, seed),
		];
		let c = Ctx::<Arena<0>>::begin("par", p.obs & !STORE);
		let n = runs.iter().map(|r| r.len()).max().unwrap();
		for i in 0..n {
			let evs = list(runs.iter(), |r| r.get(i).cloned().unwrap_or("{\"op\":\"missing\"}".into()));
			Ev::new("par").raw("evs", evs).emit();
			// explained by the specification as well
			if let Some(l) = runs[0].get(i) {
				emit(l.clone())
			}
		}
		drop(c);
	}
}

// ---- DOT ----

/// The texts of the fields of a record label, and what follows it.
fn label_fields(label: &str) -> Option<(Vec<String>, &str)> {
	let mut fields = Vec::new();
	let mut text = String::new();
	let mut chars = label.char_indices();
	let mut port = false;
	let mut close = |text: &mut String| {
		let t = std::mem::take(text);
		if !t.trim().is_empty() {
			fields.push(t.trim().to_string())
		}
	};
	while let Some((i, c)) = chars.next() {
		match c {
			'\\' => {
				let c = chars.next()?.1;
				text.push(c)
			}
			'"' => {
				close(&mut text);
				return Some((fields, &label[i + 1..]));
			}
			'|' | '{' | '}' => close(&mut text),
			'<' => port = true,
			'>' => port = false,
			c if !port => text.push(c),
			_ => (),
		}
	}
	None
}

/// The statements of a DOT document; see `Views.tla`.
pub fn dot_statements(text: &str, codes: &[i64], decorated: bool) -> String {
	let index = |c: Option<i64>| -> i64 {
		match c {
			Some(c) => codes.iter().position(|x| *x == c).map(|i| i as i64 + 1).unwrap_or(-1),
			None => 0,
		}
	};
	let name = |s: &str| -> i64 {
		let s = s.trim().trim_end_matches(';').trim().trim_matches('"');
		// a port may follow the name
		let s = s.split(':').next().unwrap_or("");
		index(Some(s.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(-1)))
	};
	let mut out = Vec::new();
	let body = text.trim();
	let inner = body.split_once('{').and_then(|(head, rest)| {
		let ok = head.trim_start().starts_with("digraph");
		rest.strip_suffix('}').filter(|_| ok)
	});
	let Some(inner) = inner else { return "[[3]]".into() };
	for line in inner.lines() {
		let line = line.trim();
		if line.is_empty() || line.starts_with("node ") || line.starts_with("node[") || line.starts_with("edge ") || line.starts_with("graph ") {
			continue;
		}
		if let Some((head, label)) = line.split_once("[label=\"") {
			let Some((fields, tail)) = label_fields(label) else {
				out.push("[3]".to_string());
				continue;
			};
			let mut parens = Vec::new();
			let mut items: Vec<i64> = Vec::new();
			for text in fields {
				let inner = text.strip_prefix('(').and_then(|x| x.strip_suffix(')'));
				if let Some(x) = inner.and_then(|x| x.parse::<i64>().ok()) {
					parens.push(Some(x))
				} else {
					// the identity between the two I's; the whole is the text of the item
					let id = text.split('I').nth(1).and_then(|x| x.parse::<i64>().ok());
					items.push(id.filter(|id| crate::tok::text(*id, decorated) == text).unwrap_or(-1))
				}
			}
			if !matches!(tail.trim(), "]" | "];") {
				items.push(-2)
			}
			let (parent, own) = match parens.len() {
				1 => (0, index(parens[0].or(Some(-1)))),
				2 => (index(parens[0].or(Some(-1))), index(parens[1].or(Some(-1)))),
				_ => (-2, -2),
			};
			out.push(format!("[1,{},{},{},{}]", name(head), parent, jints(&items), own));
		} else if let Some((a, b)) = line.split_once("->") {
			out.push(format!("[2,{},{}]", name(a), name(b)))
		} else {
			out.push("[3]".into())
		}
	}
	list(out, |x| x)
}
