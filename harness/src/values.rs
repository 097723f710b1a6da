//! Tables of offsets, addresses and items.
use crate::ctx::catch;
use crate::out::*;
use raw_btree::node::{Address, Offset};
use raw_btree::{Item, M};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn o(x: Ordering) -> i64 {
	x as i64
}

fn po(x: Option<Ordering>) -> String {
	match x {
		Some(x) => format!("[{}]", x as i64),
		None => "[]".into(),
	}
}

fn begin(tag: &str) {
	Ev::new("begin").n("m", M as i64).s("tag", tag).s("fam", "values").b("strict", false).emit()
}

fn hash<T: Hash>(x: &T) -> u64 {
	let mut h = DefaultHasher::new();
	x.hash(&mut h);
	h.finish()
}

fn guarded(ev: Ev, f: impl FnOnce(Ev) -> Ev) {
	// the event is rebuilt from scratch if the table panics
	match catch(|| f(ev)) {
		Ok(ev) => ev.emit(),
		Err(m) => Ev::new("table").s("px", &m).emit(),
	}
}

pub fn values(seed: u64) {
	// ascending samples; None is the before offset
	let mut sm: Vec<Option<usize>> = vec![None];
	sm.extend((0..=M + 4).map(Some));
	for b in [8u32, 16, 31, 32, 48, 63] {
		let p = 1usize << b;
		sm.extend([p - 2, p - 1, p, p + 1].map(Some));
	}
	let mut r = crate::ctx::Rng::new(seed);
	for _ in 0..6 {
		sm.push(Some((r.next() >> (r.below(40) + 1)) as usize))
	}
	sm.push(Some(usize::MAX - 2));
	sm.push(Some(usize::MAX - 1));
	sm.sort();
	sm.dedup();
	let off = |x: Option<usize>| match x {
		None => Offset::before(),
		Some(x) => Offset::from(x),
	};
	let rank = |x: Option<usize>| sm.iter().position(|y| *y == x).map(|i| i as i64 + 1).unwrap_or(-5);
	let orank = |x: Offset| if x == Offset::before() { 1 } else { rank(x.value()) };
	begin("offsets");
	for (i, a) in sm.iter().enumerate() {
		let dec = a.map(|x| x.to_string()).unwrap_or("-1".into());
		guarded(Ev::new("off").n("a", i as i64 + 1).s("dec", &dec), |ev| {
			let x = off(*a);
			let up = sm.get(i + 1).is_some_and(|b| match a {
				None => *b == Some(0),
				Some(a) => *b == Some(a + 1),
			});
			let down = i > 0
				&& match sm[i - 1] {
					None => *a == Some(0),
					Some(b) => *a == Some(b + 1),
				};
			let mut inc = x;
			inc.incr();
			let mut dcr = x;
			if i > 0 {
				dcr.decr();
			}
			ev.n("before", x.is_before() as i64)
				.raw("value", x.value().map(|v| format!("[{}]", rank(Some(v)))).unwrap_or("[]".into()))
				.raw("unwrap", catch(|| x.unwrap()).map(|v| format!("[{}]", rank(Some(v)))).unwrap_or("[]".into()))
				.n("from", orank(x))
				.s("disp", &x.to_string())
				.s("dbg", &format!("{x:?}"))
				.b("up", up)
				.b("down", down)
				.n("incr", orank(inc))
				.n("decr", orank(dcr))
		});
	}
	begin("offset pairs");
	for (i, a) in sm.iter().enumerate() {
		for (j, b) in sm.iter().enumerate() {
			guarded(Ev::new("offpair").n("a", i as i64 + 1).n("b", j as i64 + 1), |ev| {
				let (x, y) = (off(*a), off(*b));
				let ev = ev
					.n("cmp", o(x.cmp(&y)))
					.raw("pcmp", po(x.partial_cmp(&y)))
					.n("eq", (x == y) as i64)
					.n("ne", (x != y) as i64)
					.ints("rel", &[(x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64])
					.n("max", orank(x.max(y)))
					.n("min", orank(x.min(y)))
					.n("clamp", orank(off(sm[sm.len() / 2]).clamp(x.min(y), x.max(y))))
					.n("mid", orank(off(sm[sm.len() / 2])))
					.n("hash", (hash(&x) == hash(&y)) as i64)
					.b("int", b.is_some());
				match *b {
					Some(b) => ev
						.n("ieq", (x == b) as i64)
						.n("ine", (x != b) as i64)
						.raw("ipcmp", po(x.partial_cmp(&b)))
						.ints("irel", &[(x < b) as i64, (x <= b) as i64, (x > b) as i64, (x >= b) as i64]),
					None => ev,
				}
			});
		}
	}
	// a plain integer that no offset other than the before offset could be mistaken for
	begin("greatest integer");
	for (i, a) in sm.iter().enumerate() {
		guarded(Ev::new("offint").n("a", i as i64 + 1).n("b", sm.len() as i64 + 1), |ev| {
			let (x, b) = (off(*a), usize::MAX);
			ev.n("ieq", (x == b) as i64)
				.n("ine", (x != b) as i64)
				.raw("ipcmp", po(x.partial_cmp(&b)))
				.ints("irel", &[(x < b) as i64, (x <= b) as i64, (x > b) as i64, (x >= b) as i64])
		});
	}
	begin("addresses");
	let many: Vec<(u32, i64)> = (0..3u32).flat_map(|n| [-1i64, 0, 1, 7].map(|o| (n * 11, o))).collect();
	for a in &many {
		for b in &many {
			let mk = |a: &(u32, i64)| Address::new(a.0, crate::ctx::off(a.1));
			guarded(Ev::new("addr").ints("a", &[a.0 as i64, a.1]).ints("b", &[b.0 as i64, b.1]), |ev| {
				let (x, y) = (mk(a), mk(b));
				#[allow(clippy::clone_on_copy)]
				let z = x.clone();
				ev.n("eq", (x == y) as i64)
					.n("ne", (x != y) as i64)
					.s("disp", &x.to_string())
					.s("dbg", &format!("{x:?}"))
					.n("node", z.node as i64)
					.n("off", crate::ctx::unoff(z.offset))
			});
		}
	}
	begin("items");
	let ks = [-3i64, 0, 1, 2, 40];
	let vs = [0i64, 1, 5];
	for a in ks.iter().flat_map(|k| vs.iter().map(move |v| (*k, *v))) {
		for b in ks.iter().flat_map(|k| vs.iter().map(move |v| (*k, *v))) {
			guarded(Ev::new("item").ints("a", &[a.0, a.1]).ints("b", &[b.0, b.1]), |ev| {
				let (x, y) = (Item::new(a.0, a.1), Item::new(b.0, b.1));
				let p = x.as_pair();
				let c = x.clone();
				let ar: &Item<i64, i64> = x.as_ref();
				let ev = ev
					.n("eq", (x == y) as i64)
					.n("ne", (x != y) as i64)
					.n("cmp", o(x.cmp(&y)))
					.raw("pcmp", po(x.partial_cmp(&y)))
					.ints("rel", &[(x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64])
					.n("kcmp", o(x.key_cmp(&b.0)))
					.ints("pair", &[*p.0, *p.1])
					.ints("clone", &[c.key, c.value])
					.ints("field", &[x.key, x.value])
					.ints("asref", &[ar.key, ar.value])
					.s("disp", &x.to_string());
				let into = x.clone().into_pair();
				let which = |m: Item<i64, i64>| if a == b || (m.key, m.value) == a { 1 } else { 2 };
				let lo = which(x.clone().min(y.clone()));
				let (l, h) = if x < y { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
				let mid = Item::new(1i64, 77i64).clamp(l, h);
				ev.ints("into", &[into.0, into.1]).n("max", which(x.max(y))).n("min", lo).ints("clamp", &[mid.key, mid.value])
			});
		}
	}
	begin("partially ordered items");
	let fs = [f64::NAN, 1.0, 2.0, 3.5];
	for (i, a) in fs.iter().enumerate() {
		for (j, b) in fs.iter().enumerate() {
			guarded(Ev::new("pitem").n("a", i as i64).n("b", j as i64), |ev| {
				let (x, y) = (Item::new(*a, i), Item::new(*b, j));
				ev.n("eq", (x == y) as i64)
					.n("ne", (x != y) as i64)
					.raw("pcmp", po(x.partial_cmp(&y)))
					.ints("rel", &[(x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64])
			});
		}
	}
	item_map(seed);
}

/// A tree of key/value items is a map from keys to values (borrowed keys of another type included).
fn item_map(seed: u64) {
	use raw_btree::RawBTree;
	let mut r = crate::ctx::Rng::new(seed ^ 77);
	begin("map of items");
	Ev::new("new").n("h", 1).emit();
	let mut t: RawBTree<Item<String, i64>> = RawBTree::new();
	let name = |k: i64| format!("k{k:04}");
	let num = |s: &str| s[1..].parse::<i64>().unwrap_or(-1);
	let mut id = 0;
	for step in 0..400 {
		let k = r.below(60) as i64;
		let h = step;
		let _ = h;
		match r.below(4) {
			0 | 1 => {
				id += 1;
				let res = catch(|| t.insert(|a, b| a.cmp(b), Item::new(name(k), id)));
				let ev = Ev::new("insert").n("h", 1).item("x", [k, id, 0]);
				match res {
					Ok(r) => ev.opt("r", r.map(|i| [num(&i.key), i.value, 0])).emit(),
					Err(m) => return ev.s("px", &m).emit(),
				}
			}
			2 => {
				let res = catch(|| t.remove(|a: &Item<String, i64>, q: &str| a.key_cmp(q), name(k).as_str()));
				let ev = Ev::new("remove").n("h", 1).n("k", k);
				match res {
					Ok(r) => {
						let r = r.map(|i| i.into_pair());
						ev.opt("r", r.map(|(k, v)| [num(&k), v, 0])).emit()
					}
					Err(m) => return ev.s("px", &m).emit(),
				}
			}
			_ => {
				let res = catch(|| {
					t.get(|a: &Item<String, i64>, q: &str| a.key_cmp(q), name(k).as_str())
						.map(|i| [num(i.as_pair().0), *i.as_pair().1, 0])
				});
				let ev = Ev::new("get").n("h", 1).n("k", k);
				match res {
					Ok(r) => ev.opt("r", r).emit(),
					Err(m) => return ev.s("px", &m).emit(),
				}
			}
		}
	}
}
